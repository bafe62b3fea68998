"""What a property module (props/<ID>.py) is made of."""
import math


class Violation(AssertionError):
    """The property does not hold on this case."""


class Sub:
    """One generated check of a property.

    name      unique in the module
    strategy  a Hypothesis strategy giving a JSON-able case (a zero-argument
              function returning one, so that Hypothesis is imported late)
    run       run(case) -> (nontrivial, [labels]); raises on a violation
    quick / thorough   total number of cases over all workers
    fork      run every case in a forked child (for code that may kill the
              process on purpose)
    """

    def __init__(self, name, strategy, run, quick, thorough=None, fork=False):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.fork = fork


def check(cond, *msg):
    if not cond:
        raise Violation(' '.join(str(m) for m in msg)[:4000])


def check_eq(got, want, *what):
    if got != want:
        raise Violation(f'{" ".join(map(str, what))}: got {got!r} want {want!r}'[:4000])


def close(a, b, rtol=1e-4, atol=1e-4):
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def check_close(got, want, *what, rtol=1e-4, atol=1e-4):
    if not close(float(got), float(want), rtol, atol):
        raise Violation(f'{" ".join(map(str, what))}: got {got!r} want {want!r}'[:4000])


def check_all_close(got, want, *what, rtol=1e-4, atol=1e-4):
    check_eq(len(got), len(want), 'length of', *what)
    for i, (g, w) in enumerate(zip(got, want)):
        if not close(float(g), float(w), rtol, atol):
            raise Violation(
                f'{" ".join(map(str, what))} at {i}: got {g!r} want {w!r}; all: got {str(list(got))[:1500]} '
                f'want {str(list(want))[:1500]}'[:4000])


def raises(fn, *what, exc=Exception):
    """fn() must raise (an ordinary Python exception)."""
    try:
        r = fn()
    except exc:
        return
    raise Violation(f'{" ".join(map(str, what))}: accepted, gave {r!r}'[:3000])
