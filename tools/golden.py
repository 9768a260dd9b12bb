#!/usr/bin/env python3
"""Bind the model of Spark (lib/fakespark) to Spark itself.

usage: golden.py collect DIR EVERY   run the quick checks, recording every EVERY-th (code, tables) pair below DIR
       golden.py record DIR [CAP]    pick pairs of every shape, run them on real Spark (local[1], UTC), write corpus/golden.jsonl
       golden.py compare             run corpus/golden.jsonl on the model, print differences
Only the recorded answers are committed; checks/p15.py replays them on the model on every run (no Spark needed)."""
import collections
import datetime as dt
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import time
from pathlib import Path

ROOT = Path(__file__).resolve().parents[1]
PY = "/opt/spl-venv/bin/python"
GOLD = ROOT / "corpus" / "golden.jsonl"
CHECKS = "04 06 07 08 09 10 11 12 13 14 15 16 17 24".split()


def collect(d, every):
    os.makedirs(d, exist_ok=True)
    for p in CHECKS:
        env = dict(os.environ, VF_TRACE=d, VF_TRACE_EVERY=every, VF_TRACE_ID="P" + p)
        r = subprocess.run([PY, "-B", str(ROOT / "checks/run.py"), "p" + p, "quick"], env=env, stdout=subprocess.PIPE, text=True)
        print(p, r.returncode, r.stdout.split("\n")[-3][:150])


MOVING = re.compile(r"current_timestamp|current_date|eval\.now|eval\.time\(|relative_time|make_results|rand\(|random|uuid")  # no fixed answer


def shape(code):
    """Code with its literals and field names blanked out: pairs of one shape exercise the same operations."""
    code = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', "'S'", code)
    return re.sub(r"\d+(\.\d+)?", "0", code)


def value(v):
    if isinstance(v, dict):
        return dt.datetime.fromisoformat(v["ts"])
    return [value(x) for x in v] if isinstance(v, list) else v


def plain(v):
    """A value Spark or the model returned, for JSON."""
    if isinstance(v, dt.datetime):
        return {"ts": v.isoformat()}
    if isinstance(v, dt.date):
        return {"date": v.isoformat()}
    if hasattr(v, "asDict"):
        return {k: plain(x) for k, x in v.asDict().items()}
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, float) and v != v:
        return "NaN"
    if isinstance(v, float) and v in (float("inf"), float("-inf")):
        return str(v)
    if type(v).__name__ == "Decimal":
        return float(v)
    return v


def pick(d, cap):
    """Pairs covering every feature (operation, operand position, kind of operand) three times, then every shape of code once,
    as far as the cap of each check allows."""
    sys.path.insert(0, str(ROOT / "lib"))
    from vf import trace
    out = []
    for p in CHECKS:
        pool = []
        for f in glob.glob(f"{d}/P{p}-*.jsonl"):
            for line in open(f):
                r = json.loads(line)
                if not MOVING.search(r["code"]):
                    pool.append(r)
        pool.sort(key=lambda r: r["h"])
        have, shapes, chosen, rest = collections.Counter(), set(), [], []
        for r in pool:
            fs = trace.features(r["code"], r["rt"])
            if any(have[f] < 3 for f in fs):
                have.update(fs)
                shapes.add((r["rt"], shape(r["code"])))
                chosen.append(r)
            else:
                rest.append(r)
        n = len(chosen)
        for r in rest:
            k = r["rt"], shape(r["code"])
            if len(chosen) < cap and k not in shapes:
                shapes.add(k)
                chosen.append(r)
        print(f"P{p}: {len(pool)} pairs, {len(have)} features, {len(shapes)} shapes; {n} pairs for the features, {len(chosen)} chosen", flush=True)
        out += chosen
    return out


def _worker(args):
    rows, pkg, n = args
    os.environ["TZ"] = "UTC"
    time.tzset()
    sys.path[:0] = [pkg, str(ROOT / "lib")]
    from pyspark.sql import SparkSession
    from pyspark.sql import functions as F
    tmp = f"/tmp/golden-spark-{n}"
    os.makedirs(tmp, exist_ok=True)
    spark = (SparkSession.builder.master("local[1]").config("spark.ui.enabled", "false").config("spark.sql.session.timeZone", "UTC")
             .config("spark.sql.shuffle.partitions", "1").config("spark.default.parallelism", "1").config("spark.driver.memory", "2g")
             .config("spark.sql.warehouse.dir", tmp).config("spark.local.dir", tmp).config("spark.driver.extraJavaOptions", f"-Dderby.system.home={tmp}")
             .config("spark.sql.codegen.wholeStage", "false").config("spark.driver.host", "127.0.0.1").config("spark.driver.bindAddress", "127.0.0.1").getOrCreate())
    spark.sparkContext.setLogLevel("OFF")
    from vf import execute_code
    from pyspark.sql import SparkSession as S

    def cidr_match(net, ip):
        """The user-defined function the generated code calls (users register it themselves)."""
        import ipaddress
        try:
            return None if ip is None else ipaddress.ip_address(ip) in ipaddress.ip_network(net, strict=False)
        except ValueError:
            return False

    spark.udf.register("cidr_match", cidr_match, "boolean")
    table = S.table
    S.table = lambda self, name: table(self, f"`{name}`")  # names with dots are temporary views here
    from spl_transpiler.runtime import commands, functions
    prev = None
    out = []
    for r in rows:
        tables = json.loads(r["tables"])
        if r["tables"] != prev:
            for t in spark.catalog.listTables():
                spark.catalog.dropTempView(t.name)
            for name, (schema, data) in tables.items():
                ddl = ", ".join(f"`{a}` {b}" for a, b in schema)
                spark.createDataFrame([tuple(value(x) for x in row) for row in data], ddl).createOrReplaceTempView(f"`{name}`")
            prev = r["tables"]
        ns = {"spark": spark, "F": F}
        if r["rt"]:
            ns.update(commands=commands, functions=functions)
        try:
            v = execute_code.value_of(r["code"], ns)
            if isinstance(v, list):
                cols = v[0].__fields__ if v else []
                res = {"cols": list(cols), "rows": [[plain(x) for x in row] for row in v]}
            else:
                res = {"cols": v.columns, "rows": [[plain(x) for x in row] for row in v.collect()]}
        except Exception as e:
            res = {"error": f"{type(e).__name__}: {str(e).splitlines()[0] if str(e) else ''}"[:300]}
        out.append({k: r[k] for k in ("h", "check", "rt", "code", "tables")} | {"spark": res})
    spark.stop()
    return out


def record(d, cap):
    import multiprocessing as mp
    sys.path.insert(0, str(ROOT / "lib"))
    from vf import build
    pkg = str(build.ensure())
    rows = pick(d, cap)
    rows.sort(key=lambda r: (r["tables"], r["h"]))
    n = 6
    size = -(-len(rows) // n)
    parts = [(rows[i * size:(i + 1) * size], pkg, i) for i in range(n)]
    with mp.get_context("spawn").Pool(n) as pool:
        res = [x for part in pool.map(_worker, parts) for x in part]
    GOLD.parent.mkdir(exist_ok=True)
    index = {}
    with open(GOLD, "w") as o:
        for r in res:
            t = r.pop("tables")
            if t not in index:
                index[t] = len(index)
                o.write(json.dumps({"tables": json.loads(t), "id": index[t]}) + "\n")
            o.write(json.dumps({**r, "t": index[t]}) + "\n")
    print(len(res), "recorded;", sum("error" in r["spark"] for r in res), "of them errors")


def compare(quiet=False):
    """Replay on the model; returns (agreeing, [differences])."""
    from vf import golden
    ok, left, bad = golden.replay(rt=True)
    print(ok, "agree,", left, "left open,", len(bad), "differ")
    groups = collections.defaultdict(list)
    for b in bad:
        groups[b["why"][:60], b["check"]].append(b)
    for k, v in sorted(groups.items(), key=lambda kv: -len(kv[1])):
        print(len(v), *k)
        for b in v[:2]:
            print("    ", b["code"][:600].replace("\n", "\n      "), "\n      ->", b["why"][:500])


if __name__ == "__main__":
    if sys.argv[1] == "collect":
        collect(sys.argv[2], sys.argv[3])
    elif sys.argv[1] == "record":
        record(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 200)
    else:
        compare()
