"""Small functions the interpreter is compared with (see run.py): d, e are dictionaries, l, m lists, k a key, x a value, flag a boolean."""


def d_filter_del(d, k):
    for h in [y for y in d if y.startswith('_')]:
        del d[h]
    if k in d:
        return d[k]
    return 'none'


def d_filter_pop(d, k):
    for h in list(d.keys()):
        if h.startswith('_'):
            d.pop(h)
    return d.get(k, 'dflt')


def d_comp(d, e, k):
    r = {y: d[y] for y in d if y not in e}
    r.update(e)
    return r


def d_merge_loop(d, e):
    r = dict(e)
    for y, v in d.items():
        if v is not None:
            r[y] = v
    return r


def d_missing(d, e):
    for y in e:
        if y not in d:
            d[y] = e[y]
    return d


def l_any(l, x):
    return any(y == x for y in l)


def l_all_in(l, m):
    return all(y in m for y in l)


def l_filter(l, m):
    r = []
    for y in l:
        if y in m:
            r.append(y)
    return r


def l_filter_comp(l, m):
    return [y for y in l if y not in m]


def l_first(l, d):
    for y in l:
        if y in d:
            return d[y]
    return None


def l_first_break(l, d):
    got = 'no'
    for y in l:
        if y in d and d[y] is not None:
            got = d[y]
            break
    return got


def l_flag(l, x):
    found = False
    for y in l:
        found = found or y == x
    return found


def l_flag_else(l, x):
    for y in l:
        if y == x:
            break
    else:
        return 'absent'
    return 'present'


def l_all_flag(l, m):
    ok = True
    for y in l:
        if y not in m:
            ok = False
    return ok


def l_all_stop(l, m):
    ok = True
    for y in l:
        if y not in m:
            ok = False
            break
    return ok


def l_union(l, m):
    return set(l) | set(m)


def l_inter(l, m):
    return set(l) & set(m)


def l_diff(l, m):
    s = set(l)
    for y in m:
        s.discard(y)
    return s


def l_nested(l, d):
    r = []
    for y in l:
        for z in d:
            if z == y:
                r.append(z)
    return r


def l_extend(l, m, flag):
    r = list(l)
    if flag:
        r.extend(m)
    else:
        r += [y for y in m if y in l]
    return r


def d_pop_default(d, k, x):
    v = d.pop(k, x)
    if k in d:
        return 'still'
    return v


def d_set_then_loop(d, k, x):
    d[k] = x
    for h in [y for y in d if d[y] is None]:
        del d[h]
    return d


def d_del_in(d, l):
    for y in l:
        if y in d:
            del d[y]
    return d


def d_track(d, l, m):
    for y in [a for a in d if a in l or a in m]:
        del d[y]
    return d


def d_setdefault(d, k, x):
    return d.setdefault(k, x)


def d_setdefault2(d, k, x):
    d.setdefault(k, x)
    return d


def d_get_none(d, k):
    v = d.get(k)
    if v is None:
        return 'nothing'
    return v


def d_get_or(d, k, x):
    return d.get(k) or x


def b_chain(x, flag):
    if flag and x is not None or x == 'a':
        return 1
    elif not flag:
        return 2
    return 3


def b_ternary(x, l):
    return x if x in l else (None if not l else 'z')


def l_count(l, x):
    n = 0
    for y in l:
        if y == x:
            n += 1
    return n > 0


def l_index(l, x):
    if x in l:
        return l.index(x) >= 0
    return False


def d_keys_union(d, e):
    return set(d) | set(e.keys())


def d_values_any(d, x):
    return x in d.values()


def d_items_any(d, x):
    return any(v == x for k, v in d.items())


def l_isdisjoint(l):
    return set(l).isdisjoint(('a', 'b'))


def l_lit_any(x):
    return any(x == y for y in ('a', 'b', None))


def l_last(l, d):
    got = None
    for y in l:
        if y in d:
            got = 'some'
    return got


def l_two_flags(l, x, flag):
    a = b = False
    for y in l:
        if y == x:
            a = True
        elif flag:
            b = True
    return (a, b)


def d_copy_mod(d, k, x):
    r = dict(d)
    r[k] = x
    return k in d


def d_alias_mod(d, k, x):
    r = d
    r[k] = x
    return d[k]


def d_comp_filter(d, l):
    return {y: v for y, v in d.items() if y in l}


def d_comp_del(d, l):
    r = {y: v for y, v in d.items() if y in l}
    for y in list(r):
        if r[y] is None:
            del r[y]
    return r


def l_remove_all(l, m):
    r = [y for y in l]
    for y in m:
        while y in r:
            r.remove(y)
    return r


def l_continue(l, m):
    r = []
    for y in l:
        if y in m:
            continue
        r.append(y)
    return r


def l_try(d, k):
    try:
        v = d[k]
    except KeyError:
        v = 'err'
    return v


def d_nested_get(d, e, k):
    v = d.get(k, e.get(k, 'q'))
    return v


def s_starts(k):
    if k.startswith('_'):
        return 'hidden'
    return k


def l_sorted(l, m):
    r = sorted(set(m))
    return [y for y in r if y in l]


def l_reversed_first(l, d):
    for y in reversed(l):
        if y in d:
            return 'yes'
    return 'no'


def l_set_loop(l, m):
    s = set()
    for y in l:
        s.add(y)
    for y in m:
        if y in s:
            return True
    return False


def l_gen_sum(l, m):
    return bool([y for y in l if y in m])


def l_filter_twice(l, m, d):
    r = [y for y in l if y in m]
    s = [y for y in r if y not in d]
    return s


def l_filter_del_member(l, m, x):
    r = [y for y in l if y in m]
    return x in r


def d_clear_then(d, e, flag):
    if flag:
        d.clear()
    d.update(e)
    return d


def d_flag_loop(d, l):
    ok = False
    for y in l:
        if y in d and not (d[y] is None and ok):
            ok = True
    return ok


def d_while(l, d):
    r = list(l)
    while r:
        y = r.pop()
        if y in d:
            return True
    return False


def l_both(l, m):
    return [y for y in l if y in m] + [y for y in m if y not in l]


def l_setdiff(l, m):
    return set(l) - set(m)


def l_chain_first(l, m, x):
    for y in l:
        if y == x:
            return 'first'
    for y in m:
        if y == x:
            return 'second'
    return 'none'


def d_two_pass(d, e):
    for y in list(d):
        if y in e:
            del d[y]
    for y in e:
        if e[y] is None:
            d[y] = 'new'
    return d


def b_not_any_none(d):
    return None in d.values()


def l_nested_any(l, d):
    return any(z in d for y in l for z in (y, 'b'))


def d_filter_items(d, e):
    return sorted(y for y, v in d.items() if y in e and v is not None)


def l_enumerate(l, x):
    for i, y in enumerate(l):
        if y == x:
            return 'found'
    return 'lost'


def l_zip_first(l, x):
    got = [y for y in l if y == x]
    return got[0] if got else None


def d_nested_loop_flag(d, l, m):
    r = set()
    for y in l:
        ok = False
        for z in m:
            if z == y:
                ok = True
                break
        if not ok:
            r.add(y)
    return r


def d_nested_loop_flag2(d, l, m):
    r = {}
    for y in d:
        got = None
        for z in l:
            if z in m:
                got = z
                break
        if got is None:
            r[y] = 'none'
        else:
            r[y] = 'some'
    return r


def d_ctor_star(d, e):
    return dict(d, **e)


def d_star_star(d, e):
    return {**d, **e}


def d_or(d, e):
    return d | e


def d_fromkeys(l):
    return dict.fromkeys(l, 1)


def d_ior(d, e):
    r = dict(d)
    r |= e
    return r


def d_pairs(d, e):
    r = {}
    for k, v in d.items():
        r[k] = e.get(k, v)
    return r


def d_setdef_loop(d, e):
    for k, v in e.items():
        d.setdefault(k, v)
    return d


def d_pop_list(d, l):
    for k in l:
        d.pop(k, None)
    return d


def d_try_del(d, l):
    for k in l:
        try:
            del d[k]
        except KeyError:
            pass
    return d


def d_del_all(d, l):
    return {k: v for k, v in d.items() if not (k in l)}


def l_next(l, d):
    return next((y for y in l if y in d), 'none')


def l_while_pop(l, d):
    while l:
        y = l.pop(0)
        if y in d:
            return y
    return None


def l_set_minus(l, m):
    s = set(l)
    s -= set(m)
    return s


def l_set_discard(l, m):
    s = set(l)
    for y in m:
        s.discard(y)
    return s


def l_symdiff(l, m):
    return set(l) ^ set(m)


def l_issubset(l, m):
    return set(l) <= set(m)


def l_any_tuple(k):
    return k in ('a', 'b') or k.startswith('_')
