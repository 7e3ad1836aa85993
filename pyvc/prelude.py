"""Library functions defined by their Python meaning; interpreted instead of called."""
MISSING = object()


def reduce(function, sequence, initial=MISSING):
    it = iter(sequence)
    if initial is MISSING:
        items = list(it)
        if not items:
            raise TypeError('reduce() of empty iterable with no initial value')
        value = items[0]
        for element in items[1:]:
            value = function(value, element)
        return value
    value = initial
    for element in it:
        value = function(value, element)
    return value


def partial(func, *args, **keywords):
    def call(*more, **kw):
        return func(*args, *more, **{**keywords, **kw})
    return call


def attrgetter(*names):
    def get(obj, name):
        for part in name.split('.'):
            obj = getattr(obj, part)
        return obj

    def call(obj):
        return get(obj, names[0]) if len(names) == 1 else tuple(get(obj, n) for n in names)
    return call


def itemgetter(*items):
    def call(obj):
        return obj[items[0]] if len(items) == 1 else tuple(obj[i] for i in items)
    return call


def methodcaller(name, *args, **kwargs):
    def call(obj):
        return getattr(obj, name)(*args, **kwargs)
    return call


def starmap(function, iterable):
    return (function(*args) for args in iterable)


def takewhile(predicate, iterable):
    out = []
    for x in iterable:
        if not predicate(x):
            break
        out.append(x)
    return iter(out)


def from_iterable(iterables):
    return (x for xs in iterables for x in xs)


def filterfalse(predicate, iterable):
    return (x for x in iterable if not (predicate(x) if predicate is not None else x))


def compress(data, selectors):
    return (x for x, keep in zip(data, selectors) if keep)
