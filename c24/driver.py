"""Executes scripts with the Python wrapper of the C interface.

    = n                       next script
    S id device measurement type encoding compression
    F id                      schema.free()
    X id                      the Python object of a schema goes away
    N id schema path
    W id device measurement time value
    C id                      writer.close()
    Y id                      the Python object of a writer goes away
    + / - kind id             enters / leaves a context
    Z what id [schema]        something that has to raise
"""
import gc
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import rust  # noqa: E402

state = 12345
keep = []


def churn(n):
    """Memory that became free is used for something else"""
    global state
    for _ in range(12):
        state = (state * 1103515245 + 12345) & 0x7FFFFFFF
        keep.append(bytes([state & 0xFF]) * (n + (state >> 16) % 3))
    if len(keep) > 400:
        del keep[::2]


def name(h):
    return bytes.fromhex(h[1:]).decode()


def attempt(what, f):
    try:
        f()
    except Exception as e:
        print("raised", what, type(e).__name__)
        return
    print("ignored", what)


def wrong(w, names, what):
    d, m = name(names[0]), name(names[1])
    t = int(names[2])
    calls = {
        "value-high": lambda: w.write_int(d, m, t, 2**31),
        "value-low": lambda: w.write_int(d, m, t, -(2**31) - 1),
        "value-huge": lambda: w.write_int(d, m, t, 2**64 + 5),
        "value-float": lambda: w.write_int(d, m, t, 1.5),
        "value-text": lambda: w.write_int(d, m, t, "1"),
        "value-none": lambda: w.write_int(d, m, t, None),
        "time-high": lambda: w.write_int(d, m, 2**63, 1),
        "time-huge": lambda: w.write_int(d, m, 2**64 + t, 1),
        "time-low": lambda: w.write_int(d, m, -(2**63) - 1, 1),
        "time-float": lambda: w.write_int(d, m, 1.5, 1),
        "time-text": lambda: w.write_int(d, m, "7", 1),
        "time-none": lambda: w.write_int(d, m, None, 1),
        "name-surrogate": lambda: w.write_int("\ud800", m, t, 1),
        "name-number": lambda: w.write_int(d, 7, t, 1),
        "write-closed": lambda: w.write_int(d, m, t, 1),
        "close-closed": lambda: w.close(),
        "exit-closed": lambda: w.__exit__(None, None, None),
    }
    attempt(what, calls[what])


def main(path):
    schemas, writers = {}, {}
    n = 0
    for line in open(path, encoding="utf-8"):
        k = line.split()
        c = k[0]
        if c == "=":
            schemas, writers = {}, {}
            print("begin", k[1], flush=True)
            n += 1
        elif c == "S":
            schemas[k[1]] = rust.Schema(name(k[2]), name(k[3]), rust.TSDataType[k[4]], rust.TSEncoding[k[5]], rust.CompressionType[k[6]])
        elif c == "F":
            schemas[k[1]].free()
        elif c == "X":
            del schemas[k[1]]
            gc.collect()
        elif c == "N":
            writers[k[1]] = rust.TsFileWriter(k[3], schemas[k[2]])
        elif c == "W":
            writers[k[1]].write_int(name(k[2]), name(k[3]), int(k[4]), int(k[5]))
        elif c == "C":
            writers[k[1]].close()
        elif c == "Y":
            del writers[k[1]]
            gc.collect()
        elif c in "+-":
            o = (schemas if k[1] == "s" else writers)[k[2]]
            if c == "+":
                if o.__enter__() is not o:
                    print("ignored", "the context is another object")
            else:
                # as it is left regularly, or by an exception
                e = ValueError("x") if len(line) % 2 or len(keep) % 3 == 0 else None
                if o.__exit__(type(e) if e else None, e, None):
                    print("ignored", "the context swallows an exception, which")
        elif c == "Z":
            if k[1] == "free-freed":
                attempt(k[1], schemas[k[2]].free)
            elif k[1] == "writer-freed":
                attempt(k[1], lambda: rust.TsFileWriter(k[3], schemas[k[2]]))
            elif k[1] in ("type-wide", "encoding-wide", "compression-wide"):
                i = ["type-wide", "encoding-wide", "compression-wide"].index(k[1])
                codes = [1, 0, 0]
                codes[i] += 256
                attempt(k[1], lambda: rust.Schema("d", "m", *codes))
            else:
                wrong(writers[k[2]], k[3:], k[1])
        if c != "W" or len(line) % 7 == 0:
            churn(len(k[2]) // 2 if len(k) > 2 else 16)
    print("done", n, flush=True)


main(sys.argv[1])
