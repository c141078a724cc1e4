# shared text of the S17 demonstrations: what the process holds after n rounds
CENSUS = '''import gc, io, logging, os, sys, tempfile
logging.disable(logging.CRITICAL)


def held():
    for _ in range(3):
        gc.collect()
    n = 0
    for o in gc.get_objects():
        n += 1
        if isinstance(o, (list, dict, set, tuple)):
            n += len(o)
    return n


def growth(one, rounds=60):
    """Does what is held grow in every stretch of the history?"""
    k = 0
    at = []
    for stop in (rounds // 2, rounds, rounds * 2, rounds * 4):
        while k < stop:
            one(k)
            k += 1
        at.append(held())
    d = [b - a for a, b in zip(at, at[1:])]
    print(at)
    return d[0] >= rounds // 4 and d[1] >= rounds // 2 and d[2] >= rounds


'''
