"""Pure functions of the standard library, as the Python code that they are
equivalent to (iterators are lists: they are consumed once in what is analysed)."""


def filter(function, iterable):
    if function is None:
        return [x for x in iterable if x]
    return [x for x in iterable if function(x)]


def itertools_filterfalse(function, iterable):
    return [x for x in iterable if not function(x)]


def itertools_product(*iterables, repeat=1):
    its = [list(x) for x in iterables] * repeat
    if len(its) == 1:
        return [(x,) for x in its[0]]
    if len(its) == 2:
        return [(x, y) for x in its[0] for y in its[1]]
    if len(its) == 3:
        return [(x, y, z) for x in its[0] for y in its[1] for z in its[2]]
    return __giveup__


def itertools_combinations(iterable, r):
    it = list(iterable)
    n = len(it)
    if r == 1:
        return [(x,) for x in it]
    if r == 2:
        return [(it[i], it[j]) for i in range(n) for j in range(i + 1, n)]
    return __giveup__


def itertools_combinations_with_replacement(iterable, r):
    it = list(iterable)
    n = len(it)
    if r == 2:
        return [(it[i], it[j]) for i in range(n) for j in range(i, n)]
    return __giveup__


def itertools_permutations(iterable, r=None):
    it = list(iterable)
    n = len(it)
    if r == 2:
        return [(it[i], it[j]) for i in range(n) for j in range(n) if i != j]
    return __giveup__


def itertools_chain(*iterables):
    out = []
    for it in iterables:
        out += list(it)
    return out


def itertools_chain_from_iterable(iterables):
    return [x for it in iterables for x in it]


def itertools_starmap(function, iterable):
    return [function(*x) for x in iterable]


def itertools_repeat(x, times):
    return [x for _ in range(times)]


def itertools_islice(iterable, a, b=-1, c=None):
    if b == -1:
        return list(iterable)[:a]
    return list(iterable)[a:b:c]


def itertools_accumulate(iterable):
    it = list(iterable)
    return [sum(it[:i + 1]) for i in range(len(it))]


def itertools_pairwise(iterable):
    it = list(iterable)
    return [(it[i], it[i + 1]) for i in range(len(it) - 1)]


def functools_reduce(function, iterable, *initial):
    it = list(iterable)
    if initial:
        out = initial[0]
    else:
        out = it[0]
        it = it[1:]
    for x in it:
        out = function(out, x)
    return out


def functools_partial(function, *args, **kwargs):
    def call(*more, **keywords):
        return function(*(args + more), **dict(kwargs, **keywords))
    return call


def operator_itemgetter(*keys):
    if len(keys) == 1:
        return lambda x: x[keys[0]]
    return lambda x: tuple([x[k] for k in keys])


def operator_attrgetter(name):
    return lambda x: getattr(x, name)





def operator_floordiv(a, b):
    return a // b


def operator_mod(a, b):
    return a % b


def operator_neg(a):
    return -a


def operator_not_(a):
    return not a


def operator_pow(a, b):
    return a ** b


def operator_eq(a, b):
    return a == b


def operator_ne(a, b):
    return a != b


def operator_lt(a, b):
    return a < b


def operator_le(a, b):
    return a <= b


def operator_gt(a, b):
    return a > b


def operator_ge(a, b):
    return a >= b


def operator_getitem(a, b):
    return a[b]


def operator_contains(a, b):
    return b in a



def math_prod(iterable, start=1):
    for x in iterable:
        start = start * x
    return start


def math_hypot(*args):
    return sum([x * x for x in args])**0.5


def math_degrees(x):
    import math
    return x * 180 / math.pi


def math_radians(x):
    import math
    return x * math.pi / 180


def os_path_split(path):
    import os
    return (os.path.dirname(path), os.path.basename(path))


def numpy_degrees(x):
    import math
    return x * 180 / math.pi







def numpy_power(a, b):
    return a ** b


def numpy_negative(a):
    return -a


def numpy_mod(a, b):
    return a % b


def numpy_floor_divide(a, b):
    return a // b


def collections_Counter(iterable):
    from collections import defaultdict
    out = defaultdict(int)
    for x in iterable:
        out[x] += 1
    return out
