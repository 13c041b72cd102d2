"""Longer cases of the functions described in small.py: texts of some hundred characters and lists of
some dozen members, each character from a class the function treats alike, so that one path covers the
whole class.  They show code that works for short texts and few members only (a narrow counter, a
scratch buffer of a fixed size, a loop that stops early)."""
from small import *

L, U, DIG, SP = (97, 122), (65, 90), (48, 57), (32, 32)
low = lambda n: rng(97, 122, n)
upp = lambda n: rng(65, 90, n)
dig = lambda n: rng(48, 57, n)
bl = lambda n: many(b' ', n)
pun = lambda n: rng(33, 47, n)
def t(b): return Txt(tuple(b))
def more(n, *cs):
    if n in CASE: CASE[n] += list(cs)

N = 300
more('vt_str_to_uppercase', dict(s=low(N)))
more('vt_str_to_lowercase', dict(s=upp(N)))
ten = b'0123456789'
more('vt_str_replace_c', dict(s=low(N) + t(b'9'), c=ten, r=b'ABCDEFGHIJ'), dict(s=t(ten) + low(N) + t(ten), c=ten, r=b'ABCDEFGHIJ'), dict(s=t(ten), c=ten, r=b'AB'), dict(s=many(b'5', N), c=b'5', r=b'x'))
more('vt_str_remove_c', dict(s=low(N) + t(ten), c=ten), dict(s=many(b'a1', 140) + t(b'1'), c=ten), dict(s=many(b'5', N), c=b'5'))
more('vt_str_strip', dict(s=bl(70) + low(1) + bl(70)), dict(s=bl(N)), dict(s=low(N)), dict(s=bl(2) + low(N) + bl(2)))
more('vt_str_strip_punct', dict(s=pun(70) + low(1) + pun(70)), dict(s=low(N)))
more('vt_str_strip_c', dict(s=many(b'0369', 18) + low(1) + many(b'97', 35), c=ten), dict(s=many(b'5', N), c=b'5'), dict(s=low(N), c=ten))
more('vt_str_is_numeric', dict(s=dig(N)), dict(s=dig(N) + low(1)))
more('vt_str_is_numeric_z', dict(z=dig(N), len=N), dict(z=dig(N) + low(1), len=N), dict(z=dig(N) + low(1), len=N + 1))
more('vt_str_index_of', dict(s=low(0) + dig(N) + t(b'x'), z=120), dict(s=dig(N), z=120))
for f in ('vt_str_find', 'vt_str_index_find'): more(f, dict(s=low(N) + t(b'42'), sub=b'42'), dict(s=low(N), sub=b'42'), dict(s=low(30) + t(b'0123456789' * 4), sub=b'0123456789' * 4))
more('vt_str_can_find', dict(s=many(b'a', N), sub=b'a'), dict(s=many(b'ab', N), sub=b'ab'), dict(s=low(N) + t(b'12'), sub=b'12'))
more('vt_str_remove_first', dict(s=low(N) + t(b'12'), z=b'12'), dict(s=t(b'12') + low(N), z=b'12'))
more('vt_str_remove_last', dict(s=low(N) + t(b'12'), z=b'12'), dict(s=t(b'12') + low(N), z=b'12'))
more('vt_str_remove_all', dict(s=many(b'a1', 70), z=b'1'), dict(s=low(N) + t(b'12') + low(1), z=b'12'))
more('vt_str_replace', dict(s=many(b'a1', 40), sub=b'1', rsub=b'22'), dict(s=many(b'a1', 40), sub=b'1', rsub=b'2'), dict(s=many(b'a11', 40), sub=b'11', rsub=b'2'), dict(s=low(N) + t(b'12') + low(1), sub=b'12', rsub=low(80)))
more('vt_str_replace_first', dict(s=low(N) + t(b'12') + low(1), sub=b'12', rsub=low(80)), dict(s=low(N) + t(b'1212') + low(1), sub=b'12', rsub=b'3'))
more('vt_str_replace_last', dict(s=low(N) + t(b'12') + low(1), sub=b'12', rsub=low(80)), dict(s=low(N) + t(b'1212') + low(1), sub=b'12', rsub=b'3'))
for f in ('vt_str_insert_before', 'vt_str_insert_after'): more(f, dict(s=low(N) + t(b'12') + low(1), sub=b'12', z=upp(N)), dict(s=low(N), sub=b'12', z=upp(N)))
more('vt_str_split', dict(ps=None, s=many(b'a1', 80), sep=b'1'), dict(ps=None, s=low(N) + t(b'1') + low(N), sep=b'1'), dict(ps=None, s=low(5) + t(b'0123456789' * 3) + low(5), sep=b'0123456789' * 3))
more('vt_str_split_between', dict(s=None, z=low(N) + t(b'12') + low(N) + t(b'34') + low(2), zl=b'12', zr=b'34'), dict(s=1, z=low(4) + t(b'12') + low(N) + t(b'34') + low(2), zl=b'12', zr=b'34'))
twelve = tuple(low(1 + i % 3) for i in range(20))
for s in (None, 2):
    more('vt_str_join', dict(s=s, sep=b', ', p=twelve), dict(s=s, sep=many(b'-', 40), p=(low(N), low(N), low(2))))
    more('vt_str_join_n', {'s': s, 'sep': b', ', 'n': 20, '...': twelve}, {'s': s, 'sep': many(b'-', 40), 'n': 3, '...': (low(N), low(N), low(2))})
    more('vt_path_build', dict(s=s, p=twelve), dict(s=s, p=(low(N), low(N), low(2))))
    more('vt_path_build_n', {'s': s, 'n': 20, '...': twelve}, {'s': s, 'n': 3, '...': (low(N), low(N), low(2))})
for sr in (None, 3):
    more('vt_str_pop_get_first', dict(sr=sr, s=low(N) + t(b'12') + low(N), sep=b'12'))
    more('vt_str_pop_get_last', dict(sr=sr, s=low(N) + t(b'12') + low(N), sep=b'12'))
same = many(b'q', N)
more('vt_str_equals_z', dict(z1=same, z2=same + t(b'a')), dict(z1=same + t(b'b'), z2=same + t(b'a')), dict(z1=same, z2=same))
more('vt_str_equals_n', dict(z1=same + t(b'b'), z2=same + t(b'a'), n=N), dict(z1=same + t(b'b'), z2=same + t(b'a'), n=N + 1))
more('vt_str_equals', dict(s1=same, s2=same + t(b'a')), dict(s1=same + t(b'b'), s2=same + t(b'a')), dict(s1=same, s2=same))
more('vt_str_starts_with', dict(s=same + t(b'b'), sub=same), dict(s=same + t(b'b'), sub=same + t(b'a')))
more('vt_str_ends_with', dict(s=t(b'b') + same, sub=same), dict(s=t(b'b') + same, sub=t(b'a') + same))
more('vt_str_create', dict(z=low(N)))
more('vt_str_dup', dict(s=low(N)))
more('vt_str_clear', dict(s=low(N)))
more('vt_str_validate_len', dict(s=low(N)))
more('vt_str_append', dict(s=2, z=low(N)), dict(s=low(N), z=3))
more('vt_str_append_n', dict(s=2, z=low(N), n=N - 1))
more('vt_str_set', dict(s=low(N), z=upp(N)), dict(s=low(N), z=upp(3)))
more('vt_str_set_n', dict(s=low(N), z=upp(N), n=N - 1))
more('vt_str_insert', dict(s=low(N), z=upp(N), at=N // 2), dict(s=3, z=upp(N), at=1))
more('vt_str_insert_n', dict(s=low(N), z=upp(N), at=N // 2, n=N - 1))
deep = sum((t(b'/') + low(2) for _ in range(100)), Txt())
for s in (None, 2): more('vt_path_basename', dict(s=s, z=deep), dict(s=s, z=low(N) + t(b'/') + low(N)), dict(s=s, z=low(N)))
more('vt_path_pop', dict(z=deep), dict(z=low(N) + t(b'/') + low(N)), dict(z=low(N)))
more('vt_path_validate', dict(z=low(N)), dict(z=many(b'a\\', 150)), dict(z=many(b'a/', 150)))
more('vt_path_expand_tilda', {'z': t(b'~/') + low(N), '@home': low(40)}, {'z': t(b'~'), '@home': low(N)}, {'z': low(N), '@home': low(40)})

# ------------------------------------------------------------------ command lines, tracked blocks, logs
import opt, mal
names = [(b'--opt%02d' % k, b'-%c' % (97 + k)) for k in range(20)]
many_opts = tuple(opt.o('INT32' if k % 2 else 'STR', None, l, s) for k, (l, s) in enumerate(names))
more('vt_argopt_parse',
     opt.case([(l + b'=', b'1' if k % 2 else b'v') for k, (l, s) in enumerate(names)], *many_opts),
     opt.case([(s + b'=7',) for l, s in reversed(names)], *many_opts),
     opt.case([x for l, s in names[:6] for x in ((s,), (b'5',))] + [(b'-x',)], *many_opts),
     opt.case([(names[19][0] + b'=3',)], *many_opts),
     *[opt.case([(b'--aa=' + b'v' * 200,)], opt.o(ty, was)) for ty in ('STR', 'CSTR') for was in (None, 3)],
     opt.case([(b'-a',), (b'v' * 200,)], opt.o('STR')),
     opt.case([(b'--' + b'n' * 120 + b'=5',)], opt.o('INT32', None, b'--' + b'n' * 120)),
     opt.case([(b'--' + b'n' * 120,), (b'5',)], opt.o('INT32', None, b'--' + b'n' * 120)),
     opt.case([(b'--' + b'n' * 119 + b'x=5',)], opt.o('INT32', None, b'--' + b'n' * 120)))
more('vt_argopt_print_help',
     {'header': 2, 'footer': 1, 'optc': 2, 'optv': ((b'--' + b'n' * 60, b'-a', (3,), 'INT32', None), (b'--longer', b'-bb', (b'd' * 200,), 'STR', None)), '@report': 1},
     {'header': t(b'h' * 200), 'footer': t(b'f' * 200), 'optc': 20, 'optv': tuple((l, s, (b'text',), 'INT32', None) for l, s in names), '@report': 1})
BLOCKS = [(40, 1), (40, 0)]
more('vt_mallocator_alloc', *[dict(alloctr=s, bytes=mal.BY) for s in BLOCKS])
more('vt_mallocator_realloc', *[dict(alloctr=s, ptr=k, bytes=mal.BY) for s in BLOCKS for k in (0, 20, 39)])
more('vt_mallocator_free', *[dict(alloctr=s, ptr=k) for s in BLOCKS for k in (-1, 0, 20, 39)])
more('vt_mallocator_destroy', *[dict(alloctr=s) for s in BLOCKS])

# ------------------------------------------------------------------ sequences
import seq
for s in (0, 1):
    for v, k in (((1, N, s), 1), ((48, 40, s), 48)):
        n = v[1]
        for f in ('vt_vec_push_back', 'vt_vec_push_front'): more(f, dict(v=v, val=k))
        more('vt_vec_insert', *[dict(v=v, val=k, at=i) for i in (0, n // 2, n - 1)]); more('vt_vec_set', *[dict(v=v, val=k, at=i) for i in (0, n // 2, n - 1)])
        more('vt_vec_get', *[dict(v=v, at=i) for i in (0, n // 2, n - 1)]); more('vt_vec_remove', *[dict(v=v, at=i, rs=r) for i in (0, n // 2, n - 1) for r in (0, 1)])
        for f in ('pop', 'pop_get', 'clear', 'shrink', 'len', 'capacity', 'has_space', 'is_empty', 'dup', 'apply'): more('vt_vec_' + f, dict(v=v))
        more('vt_vec_reserve', dict(v=v, n=3), dict(v=v, n=N)); more('vt_vec_resize', dict(v=v, n=n + 5), dict(v=v, n=n - 1), dict(v=v, n=3))
        for f in ('vt_vec_slide_front', 'vt_vec_slide_back'): more(f, *[dict(v=v + (i,)) for i in (0, n // 2, n - 1, n)])
    v = ('counted', 2, N, s)
    more('vt_vec_can_find', dict(v=v, val=(43, 1)), dict(v=v, val=(0, 0)), dict(v=v, val=(7, 7)))
    p = ('objs', range(N), s)
    for f in ('vt_plist_push_back', 'vt_plist_push_front'): more(f, dict(p=p, ptr=('obj', 999)))
    for i in (0, N // 2, N - 1):
        more('vt_plist_insert', dict(p=p, ptr=('obj', 999), at=i)); more('vt_plist_set', dict(p=p, ptr=('obj', 999), at=i)); more('vt_plist_get', dict(p=p, at=i))
        for r in (0, 1): more('vt_plist_remove', dict(p=p, at=i, rs=r)); more('vt_plist_remove_element', dict(p=p, ptr=('obj', i), rs=r))
        more('vt_plist_can_find', dict(p=p, ptr=('obj', i)))
        for f in ('vt_plist_slide_front', 'vt_plist_slide_back'): more(f, dict(p=p + (i,)))
    more('vt_plist_can_find', dict(p=p, ptr=('obj', 999)))
    for f in ('pop', 'pop_get', 'clear', 'shrink', 'len', 'capacity', 'has_space', 'is_empty', 'dup', 'apply'): more('vt_plist_' + f, dict(p=p))
    more('vt_plist_reserve', dict(p=p, n=3), dict(p=p, n=N)); more('vt_plist_resize', dict(p=p, n=2 * N), dict(p=p, n=N - 1), dict(p=p, n=3))
more('vt_str_apply', dict(s=low(N)))

# ------------------------------------------------------------------ reports
big = low(N)
lg = {'log_level': 1, 'zfilename': None, 'expr': 0, 'zexpr': None, 'file': 2, 'zfmt': b'<%s>', '...': (big,), '@report': 1, '@fresh': 1}
more('vt_log', lg, dict(lg, zfilename=2), dict(lg, zfilename=t(b'n' * 200)), dict(lg, file=big), dict(lg, zexpr=big, log_level=5), dict(lg, **{'@before': (('vt_log_redirect_all_output', (b'p' * 100,)),)}), dict(lg, **{'@before': (('vt_log_redirect_level_output', (1, b'p' * 100)),)}))
dg = {'expr': 0, 'zexpr': 2, 'subject': 2, 'quit_on_failure': 0, 'file': 1, 'func': 2, 'zfmt': b'<%s>', '...': (big,), '@report': 1, '@fresh': 1}
more('vt_debug_assert', dg, dict(dg, zexpr=big), dict(dg, file=big), dict(dg, func=big), dict(dg, **{'@before': (('vt_debug_redirect_output', (b'p' * 100,)),)}))
more('vt_debug_printf', {'subject': 2, 'zfmt': b'<%s>', '...': (big,), '@report': 1, '@fresh': 1}, {'subject': 2, 'zfmt': b'<%s>', '...': (big,), '@before': (('vt_debug_redirect_output', (b'p' * 100,)),), '@report': 1, '@fresh': 1})
# ------------------------------------------------------------------ the replacement contains what is replaced
for s, z, r in ((b'aba', b'a', b'aa'), (b'aa', b'a', b'ba'), (b'xabx', b'ab', b'ab'), (b'ab', b'b', b'bb')):
    for f in ('vt_str_replace', 'vt_str_replace_first', 'vt_str_replace_last'): more(f, dict(s=s, sub=z, rsub=r))
    for f in ('vt_str_insert_before', 'vt_str_insert_after'): more(f, dict(s=s, sub=z, z=r))
more('vt_path_mkdir_parents', {'z': deep, '@sys': 'bare'}, {'z': deep + t(b'/'), '@sys': 'bare'}, {'z': low(N) + t(b'/') + low(N), '@sys': 'bare'}, {'z': low(N), '@sys': 'bare'})
