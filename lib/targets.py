"""Target lists (no import of the code under test)."""
CPYTHON2 = ["2.4", "2.5", "2.6", "2.7"]
CPYTHON3 = ["3.%d" % i for i in range(1, 13)]
PYPY = ["pypy3.5", "pypy3.6", "pypy3.7", "pypy3.8", "pypy3.9"]
CPYTHON = CPYTHON2 + CPYTHON3
ALL = CPYTHON + PYPY
PY3 = CPYTHON3 + PYPY
