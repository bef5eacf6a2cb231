#!/usr/bin/env python3
"""Run a contract natively: native.py LIB ENTRY ARGS FIXEDFILE|- SEED TRIALS SECONDS
Prints one JSON line {code, seed, msg, inputs} for the first failing trial, or {code:0,...}."""
import ctypes, json, sys, time

def main():
    lib, entry, args, fixed, seed, trials, secs = sys.argv[1:8]
    L = ctypes.CDLL(lib, mode=ctypes.RTLD_GLOBAL)
    a = json.loads(args)
    arr = (ctypes.c_uint64 * max(1, len(a)))(*a)
    fx = b"" if fixed == "-" else open(fixed, "rb").read()
    L.native_report.restype = ctypes.c_size_t
    t0 = time.time()
    ran = skipped = 0
    for k in range(int(trials)):
        s = (int(seed) * 1000003 + k) & (2**64 - 1)
        r = L.native_trial(entry.encode(), ctypes.c_uint64(len(a)), arr, ctypes.c_uint64(s), fx, ctypes.c_size_t(len(fx)))
        ran += 1
        if r == 77:
            skipped += 1
        elif r != 0:
            buf = ctypes.create_string_buffer(1 << 20)
            n = L.native_report(buf, ctypes.c_size_t(1 << 20))
            lines = buf.raw[:n].decode("utf8", "replace").split("\n")
            inp = dict(l.split("=", 1) for l in lines[1:] if "=" in l)
            print(json.dumps({"code": r, "seed": s, "msg": lines[0][4:], "inputs": inp, "ran": ran, "skipped": skipped}))
            return
        if time.time() - t0 > float(secs):
            break
    print(json.dumps({"code": 0, "ran": ran, "skipped": skipped}))

main()
