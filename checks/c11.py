"""C11: catalogue requests over a simulated network end with the sources of the reply or with the right kind of error."""
import atexit
import copy
import gc
import os
import shutil
import tempfile
import warnings

import numpy as np

from sim import core, mosaic as mo, ops
from sim.net import Net, pieces

ID = "C11"
TREE = "py"
LEVEL = "exploration"
QUICK_RUNS, THOROUGH_RUNS = 30000, 400000
QUICK_BUDGET_S = 200
TECHNIQUE = ("seeded sequences of catalogue requests over a simulated network (virtual clock) whose service refuses, resets, stalls, cuts off, redirects and "
             "answers with error statuses and non-catalogue bodies")
LEVEL_NOTE = ("seeded search over replies, transport faults at any byte and request histories; the real client, requests, urllib3 and http.client run on "
              "simulated sockets; results are compared with the sources the simulated service sent.")
RULE = ("one run = 1-4 requests (sources in a cone or a reference catalogue with a file), each with its own service behaviour; non-trivial when a fault or a "
        "reply other than a plain catalogue happened")
STATE_MEASURE = "distinct (request kind, connection behaviour, status, framing, body kind, fault kind and place bucket, outcome) tuples"
COMPONENTS = {"real": ["stcal.tweakreg.astrometric_utils", "requests", "urllib3", "http.client", "astropy tables", "gwcs"],
              "stub": ["sockets, name resolution and the clock", "the catalogue service", "TLS (plain http is configured through ASTROMETRIC_CATALOG_URL)"]}
ASSUMPTIONS = ["a catalogue has the columns ra and dec", "a reply that is neither chunked nor has a length ends when the connection is closed in order"]
REQUIRED_PROBES = ["good", "no_records", "error_status", "error_status_with_catalogue", "not_a_catalogue", "cut_off", "stall_body", "stall_before", "reset",
                   "refused", "dns", "connect_stall", "second_address", "redirect", "file_kept", "file_written", "good_after_failure", "slow_but_good", "one_line_body",
                   "filtered", "alignment"]
HOST = "catalog.sim"
_DIR = []
_WCS = []


def setup():
    os.environ["ASTROMETRIC_CATALOG_URL"] = f"http://{HOST}/webservices"
    for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY", "REQUESTS_CA_BUNDLE", "NETRC"):
        os.environ.pop(k, None)
    import stcal.tweakreg.astrometric_utils as au
    if au.SERVICELOCATION != f"http://{HOST}/webservices":
        raise core.HarnessError("the service location is not taken from the environment")
    _DIR.append(tempfile.mkdtemp(prefix="c11-"))
    atexit.register(shutil.rmtree, _DIR[0], True)
    wcs()
    images(1)
    mo.quiet()
    gc.collect()
    gc.freeze()


def wcs():
    return mo.gwcs_object("c11", (40, 50), mo.matrix(20, 1.0), [-20.0, -20.0], ((-0.5, 49.5), (-0.5, 39.5)))


STATUS = [200, 200, 200, 200, 200, 200, 200, 200, 206, 400, 403, 404, 429, 500, 502, 503, 504, 418]
NOTCAT = ["", "\n", "<html><body>Service temporarily unavailable</body></html>", "<html>\n<head><title>Error</title></head>\n<body>\nMaintenance\n</body></html>\n",
          "Error: invalid catalog name", "ref_cat.csv", "{\"error\": 3}", "# only\n# comments\n", "Error\nsomething failed\n", "dec\n1.5\n", "\x00\x01\x02", "mag,objID\n1,2\n3,4\n",
          "<html><body>Error 7: No data records could be read, the database is down</body></html>", "Error: timeout after 0 of 5 partitions\nNo data records were found\n",
          "<html>\n<body>ra,dec\n</body></html>\n", "the columns ra,dec,mag,epoch,objID are not available\n"]


def gen_body(rng):
    kind = rng.weighted([("catalogue", 14), ("none", 2), ("other", 3), ("binary", 0.5)])
    if kind == "other":
        return {"kind": kind, "text": rng.pick(NOTCAT)}
    if kind != "catalogue":
        return {"kind": kind}
    n = rng.pick([0, 1, 2, 3, 5, 12, 40])
    return {"kind": kind, "n": n, "seed": rng.randrange(1 << 16), "blank": rng.pick([0.0, 0.0, 0.3, 1.0]), "eol": rng.pick(["\n", "\r\n"]), "last": rng.chance(0.8),
            "comment": rng.chance(0.2), "extra": rng.chance(0.3)}


def gen(rng, tier, index):
    calls = []
    for _ in range(rng.randrange(1, 5)):
        addrs = rng.weighted([(["ok"], 10), ([0.5], 2), (["refuse"], 1), (["unreachable"], 0.5), (["stall"], 1), (["dns"], 1), (["refuse", "ok"], 1), (["stall", "ok"], 0.7),
                              (["refuse", "stall"], 0.4), (["unreachable", "refuse"], 0.3)])
        fault = rng.weighted([(None, 8), ("cut", 2), ("reset", 2), ("stall", 2), ("delay", 2), ("drip", 1), ("reset_on_send", 0.6), ("stall_on_send", 0.6), ("garble", 0.7)])
        c = {"op": rng.weighted([("get", 3), ("create", 1)]), "epoch": rng.pick([None, 2016.0, 2020.5]), "radius": rng.pick([0.1, 0.01]),
             "num": rng.pick([None, None, 1, 3, -2, 100]), "timeout": rng.pick([30.0, 1.0, 0.25, 100]), "addrs": addrs, "status": rng.pick(STATUS), "body": gen_body(rng),
             "framing": rng.pick(["length", "length", "chunked", "close"]), "cuts": rng.ints(rng.pick([0, 1, 3, 8])), "fault": fault, "at": rng.random(),
             "redirect": rng.weighted([(0, 10), (1, 1), (2, 0.5), (99, 0.3)]), "gzip": rng.chance(0.1), "output": rng.chance(0.8), "catalog": rng.pick(["GAIADR3", "GAIADR2", "GAIAREFCAT"])}
        if c["op"] == "create" and rng.chance(0.4):
            c.update(op="align", num=None, minobj=rng.pick([1, 2, 5, 15]), images=rng.randrange(1, 3))
        if c["op"] != "get" and c["body"]["kind"] == "catalogue":
            c["epoch"] = rng.pick([None, 2016.0])
        calls.append(c)
    return {"calls": calls}


COLS = ["objID", "ra", "dec", "mag", "epoch", "pmra", "pmdec", "source_id"]


def body(spec):
    """(bytes of the reply, list of sources or None if it is not a catalogue)."""
    if spec["kind"] == "none":
        return b"No data records were found\n", []
    if spec["kind"] == "binary":
        return b"\xff\xfe\x80ra,dec\n\xff,\xff\n", None
    if spec["kind"] == "other":
        return spec["text"].encode(), None
    r = np.random.default_rng(spec["seed"])
    rows = []
    for k in range(spec["n"]):
        pm = [float(x) for x in r.integers(-900, 900, 2) / 64.0]
        rows.append({"objID": int(r.integers(10 ** 17, 10 ** 18)), "ra": float(r.integers(0, 36000)) / 100 + 0.00123, "dec": float(r.integers(-9000, 9000)) / 100,
                     "mag": 10 + k * 0.25 + float(r.integers(0, 2)) / 8, "epoch": 2016.0, "pmra": None if r.random() < spec["blank"] else pm[0],
                     "pmdec": None if r.random() < spec["blank"] / 2 else pm[1], "source_id": k})
    if rows:
        order = r.permutation(len(rows))
        rows = [rows[i] for i in order]
    cols = COLS if spec["extra"] else COLS[:-1]
    lines = [",".join(cols)] + [",".join("" if q[c] is None else repr(q[c]) for c in cols) for q in rows]
    if spec["comment"]:
        lines.insert(0, ["# sim catalogue", "# No data records were left out"][spec["seed"] % 2])
    text = spec["eol"].join(lines) + (spec["eol"] if spec["last"] else "")
    return text.encode(), rows


def http(c):
    """The bytes of the reply, where its body starts, and the sources."""
    data, rows = body(c["body"])
    payload = data
    head = f"HTTP/1.1 {c['status']} Sim\r\nContent-Type: text/csv\r\nConnection: close\r\n"
    if c["gzip"]:
        import gzip
        payload = gzip.compress(data, mtime=0)
        head += "Content-Encoding: gzip\r\n"
    if c["framing"] == "length":
        head += f"Content-Length: {len(payload)}\r\n"
    elif c["framing"] == "chunked":
        head += "Transfer-Encoding: chunked\r\n"
        parts = pieces(payload, c["cuts"])
        payload = b"".join(b"%x\r\n%s\r\n" % (len(p), p) for p in parts) + b"0\r\n\r\n"
    head = (head + "\r\n").encode()
    return head + payload, len(head), rows


def scripts(c):
    """The scripts of the connections of one request, and what must come of it: (kind, sources)."""
    whole, start, rows = http(c)
    hops = []
    nred = c["redirect"]
    for k in range(min(nred, 40)):
        hops.append([["send", f"HTTP/1.1 302 Found\r\nLocation: http://{HOST}/hop{k}\r\nContent-Length: 0\r\nConnection: close\r\n\r\n".encode()], ["eof", None]])
    f, at = c["fault"], int(c["at"] * len(whole))
    if c["addrs"][-1] in ("refuse", "unreachable", "dns"):
        return [], ("connection", None)
    if c["addrs"][-1] == "stall" or (c["addrs"][-1] != "ok" and c["addrs"][-1] >= c["timeout"]):
        return [], ("timeout", None)
    if nred > 40:
        return hops, ("error", None)
    sends = [["send", p] for p in pieces(whole, c["cuts"])]
    if f == "reset_on_send":
        return hops + [[[f, None]]], ("connection", None)
    if f == "stall_on_send":
        return hops + [[[f, None]]], ("late", None)
    if f == "garble":
        return hops + [[["send", b"*** not http ***\r\n\r\n" + whole], ["eof", None]]], ("error", None)
    outcome = ("sources", rows) if c["status"] < 400 and rows is not None else ("error", None)
    if f in ("cut", "reset", "stall"):
        if f == "cut" and c["framing"] == "close" and at > start:
            f = None  # nobody could tell
        else:
            script = [["send", p] for p in pieces(whole[:at], c["cuts"])] + [[{"cut": "eof"}.get(f, f), None]]
            if f == "stall":
                return hops + [script], ("timeout" if at < start else "late", None)
            if at == len(whole):
                return hops + [script], outcome
            if c["framing"] == "chunked" and at > len(whole) - 5:  # all of the catalogue and the mark of its end have arrived
                return hops + [script], (outcome[0] if outcome[0] == "error" else "complete", rows)
            return hops + [script], ("connection" if at == 0 and f == "reset" else "error", None)
    if f == "delay":
        k = int(c["at"] * (len(sends) + 1))
        d = c["timeout"] * 0.75
        sends = sends[:k] + [["delay", d]] + sends[k:]
    if f == "drip":
        sends = [x for s in sends for x in (["delay", c["timeout"] * 0.6], s)]
    return hops + [sends + [["eof", None]]], outcome


def run(plan, rec):
    import requests
    import stcal.tweakreg.astrometric_utils as au
    for name in os.listdir(_DIR[0]):
        os.unlink(os.path.join(_DIR[0], name))
    cwd = os.getcwd()
    os.chdir(_DIR[0])
    with open("ref_cat.csv", "w") as fh:  # a file with the name of a one-line reply
        fh.write("ra,dec,mag,objID,epoch\n1.0,2.0,3.0,4,2016.0\n")
    failed = False
    try:
        with Net(rec) as net:
            for k, c in enumerate(plan["calls"]):
                sc, (expect, rows) = scripts(c)
                net.expect(HOST, c["addrs"], sc)
                t0 = net.clock
                net.requests.clear()
                path = os.path.join(_DIR[0], "ref.ecsv" if c["op"] != "align" else f"fit_{c['catalog'].lower()}_ref.ecsv")
                ims = images(c["images"]) if c["op"] == "align" else []
                before = [(i.wcs, dict(i.meta)) for i in ims]
                old = open(path, "rb").read() if os.path.exists(path) else None
                err = table = None
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        if c["op"] == "get":
                            table = au.get_catalog(10.0, 5.0, epoch=c["epoch"], search_radius=c["radius"], catalog=c["catalog"], timeout=c["timeout"])
                        elif c["op"] == "align":
                            ims = align(c, ims)
                        else:
                            table = au.create_astrometric_catalog(wcs(), c["epoch"], catalog=c["catalog"], output=path if c["output"] else None,
                                                                  num_sources=c["num"], timeout=c["timeout"])
                except Exception as e:  # noqa: BLE001
                    err = e
                except BaseException as e:
                    if type(e).__name__ != "TweakregError":
                        raise
                    err = e
                rec.simtime += net.clock - t0
                rec.steps += 1
                new = open(path, "rb").read() if os.path.exists(path) else None
                rec.event(k, c["op"], c["addrs"], c["status"], c["body"]["kind"], c["framing"], c["fault"], "->", type(err).__name__ if err else len(table) if table is not None else "aligned")
                asked(rec, c, net.requests)
                if expect in ("timeout", "late") and err is not None:
                    most = c["timeout"] * (len(c["addrs"]) * (min(c["redirect"], 40) + 1) + 1) + 1e-6
                    if not c["timeout"] * 0.999 <= net.clock - t0 <= most:
                        rec.violation("limit", f"a {what(c)} with a limit of {c['timeout']} s ended after {net.clock - t0} s")
                if c["op"] == "align":
                    rec.probe("alignment")
                    judge_align(rec, c, expect, rows, err, ims, before, new, path)
                    if err is None:
                        table = ims
                    elif type(err).__name__ == "TweakregError" and expect in ("sources", "complete"):
                        continue
                judge(rec, requests, c, expect, rows, err, table, old, new, path, failed, plan)
                failed = failed or err is not None
                if rec.violations:
                    return
                if expect != "sources" or c["fault"]:
                    rec.nontrivial = True
                rec.state(c["op"], c["addrs"], c["status"], c["framing"], c["body"]["kind"], c["fault"], int(c["at"] * 6), type(err).__name__)
    finally:
        os.chdir(cwd)


REFANG = {"ra_ref": 30.0, "dec_ref": -20.0, "v3yangle": 0.0, "vparity": -1, "roll_ref": 0.0, "v2_ref": 0.0, "v3_ref": 0.0}


def images(n):
    """Images to be aligned."""
    from astropy.table import Table
    from stcal.tweakreg.tweakreg import construct_wcs_corrector
    if not _WCS:
        _WCS.append(ops.v2v3_wcs())
    x, y = np.random.default_rng(5).uniform(20, 380, (2, 20))
    return [construct_wcs_corrector(copy.deepcopy(_WCS[0]), REFANG, Table({"x": x, "y": y}, meta={"name": f"cat{k}"}), f"g{k}") for k in range(n)]


def align(c, ims):
    from stcal.tweakreg.tweakreg import absolute_align
    return absolute_align(ims, c["catalog"], _WCS[0], dict(REFANG), c["epoch"], save_abs_catalog=c["output"], abs_catalog_output_dir=_DIR[0], abs_minobj=c["minobj"],
                          timeout=c["timeout"])


def judge_align(rec, c, expect, rows, err, ims, before, new, path):
    """Without a catalogue, or with one too small, no image is touched."""
    changed = len(ims) != len(before) or any(i.wcs is not w or i.meta != m for i, (w, m) in zip(ims, before, strict=True))
    if err is not None and changed and (expect not in ("sources", "complete") or len(wanted(c, rows)) < c["minobj"]):
        rec.violation("image-changed", f"an image was changed by an alignment that ended with {core.exc_text(err)} ({what(c)})")
    if expect in ("sources", "complete") and type(err).__name__ == "TweakregError":
        want = wanted(c, rows)
        if len(want) >= c["minobj"] and "ot enough sources" in str(err):
            rec.violation("sources", f"a reply of {len(want)} sources was called too few although {c['minobj']} are enough")
        saved(rec, c, want, new, path)
    if err is None and expect == "sources" and len(wanted(c, rows)) < c["minobj"]:
        rec.violation("too-few", f"images were aligned to {len(wanted(c, rows))} sources, {c['minobj']} are needed")


def wanted(c, rows):
    return [r for r in rows if r["pmra"] is not None and r["pmdec"] is not None] if c["epoch"] else rows


def saved(rec, c, want, new, path):
    """The file of an alignment's reference catalogue."""
    from astropy.table import Table
    if not c["output"] or not want:
        return
    if new is None:
        rec.violation("file", "no reference catalogue file was written")
    elif sorted(val(v) for v in Table.read(path, format="ascii.ecsv")["objID"]) != sorted(r["objID"] for r in want):
        rec.violation("file", "the reference catalogue file does not hold the sources of the reply")


def asked(rec, c, requests):
    """The first request of the call asks the service for a cone that holds what was asked for."""
    from urllib.parse import parse_qs, urlsplit
    if not requests:
        return
    q = {k.upper(): v[0] for k, v in parse_qs(urlsplit(requests[0].split(b" ")[1].decode()).query).items()}
    try:
        ra, dec, sr = (float(q[k]) for k in ("RA", "DEC", "SR"))
    except (KeyError, ValueError):
        rec.violation("query", f"the request does not name a cone: {q}")
        return
    if c["op"] == "get":
        ok = (ra, dec, sr) == (10.0, 5.0, c["radius"])
    else:
        w = wcs() if c["op"] == "create" else _WCS[0]
        (x0, x1), (y0, y1) = w.bounding_box.bounding_box(order="F")
        sky = np.array(w(np.array([x0, x1, x0, x1, (x0 + x1) / 2]), np.array([y0, y0, y1, y1, (y0 + y1) / 2]), with_bounding_box=False)).T
        sky = np.radians(sky)
        a, d = np.radians([ra, dec])
        h = np.sin((sky[:, 1] - d) / 2) ** 2 + np.cos(d) * np.cos(sky[:, 1]) * np.sin((sky[:, 0] - a) / 2) ** 2
        far = np.degrees(2 * np.arcsin(np.sqrt(h))).max()
        ok = far <= sr * (1.001 if c["op"] == "create" else 1.01) + 1e-9 and sr <= 3 * far  # a mosaic grid is whole pixels
    if not ok or q.get("CAT") != c["catalog"] or ("EPOCH" in q) != bool(c["epoch"]) or (c["epoch"] and float(q["EPOCH"]) != c["epoch"]):
        rec.violation("query", f"the service was asked for {q}, not for the cone, catalogue and epoch of the call")


def judge(rec, requests, c, expect, rows, err, table, old, new, path, failed, plan):
    x = requests.exceptions
    if expect == "complete":
        expect = "sources" if err is None else "error"
    probes(rec, c, expect, rows)
    if expect != "sources":
        if err is None:
            rec.violation(f"wrong-catalogue:{expect}", f"a {what(c)} gave a catalogue of {len(table)} sources instead of an error")
        elif expect == "connection" and not isinstance(err, x.ConnectionError):
            rec.violation("kind:connection", f"a {what(c)} was reported as {core.exc_text(err)} instead of a connection error")
        elif expect == "timeout" and (not isinstance(err, x.Timeout)):
            rec.violation("kind:timeout", f"a {what(c)} was reported as {core.exc_text(err)} instead of a timeout")
        elif expect == "late" and not isinstance(err, (x.Timeout, x.ConnectionError)):
            rec.violation("kind:late", f"a {what(c)} was reported as {core.exc_text(err)}")
        if old != new:
            rec.violation("file", f"a {what(c)} changed the reference catalogue file")
        elif old is not None:
            rec.probe("file_kept")
        return
    want = wanted(c, rows)
    if c["epoch"]:
        if len(want) < len(rows):
            rec.probe("filtered")
    if err is not None:
        rec.violation("good-failed", f"a complete catalogue of {len(rows)} sources ended with {core.exc_text(err)} ({what(c)})")
        return
    if failed:
        rec.probe("good_after_failure")
    if c["op"] == "align":
        saved(rec, c, want, new, path)
        if not c["output"] and old != new:
            rec.violation("file", "a file was written although none was asked for")
        return
    if c["op"] == "get":
        cols = COLS if c["body"].get("extra") else COLS[:-1]
        if not want and c["body"]["kind"] == "none":
            cols = []
        got = [{q: val(r[q]) for q in cols} for r in table] if set(cols) <= set(table.colnames) else None
        if got != [{q: r[q] for q in cols} for r in want]:
            rec.violation("sources", f"the catalogue differs from the {len(want)} sources of the reply: {None if got is None else len(got)} rows, columns {table.colnames}")
        return
    ids = sorted(want, key=lambda r: -r["mag"])
    if c["num"] is not None and ids:
        ids = ids[c["num"] * -1:] if c["num"] > 0 else ids[:-c["num"]]
    if not want:
        if len(table) or old != new:
            rec.violation("empty", "a reply without sources gave sources or a file")
        return
    got = [{"objID": val(r["objID"]), "ra": val(r["RA"]), "dec": val(r["DEC"]), "mag": val(r["mag"])} for r in table]
    exp = [{q: r[q] for q in ("objID", "ra", "dec", "mag")} for r in ids]
    if key(got) != key(exp):
        rec.violation("reference", f"the reference catalogue has {len(got)} sources that are not the {len(exp)} sources expected of {len(want)}")
    if c["output"]:
        from astropy.table import Table
        if new is None:
            rec.violation("file", "no reference catalogue file was written")
            return
        rec.probe("file_written")
        back = Table.read(path, format="ascii.ecsv")
        if [val(v) for v in back["objID"]] != [val(v) for v in table["objID"]]:
            rec.violation("file", "the reference catalogue file does not hold the catalogue returned")
    elif old != new:
        rec.violation("file", "a file was written although none was asked for")


def key(rows):
    return [r["mag"] for r in rows], sorted((r["mag"], r["objID"], r["ra"], r["dec"]) for r in rows)


def val(v):
    if v is np.ma.masked:
        return None
    return v.item() if hasattr(v, "item") else v


def what(c):
    return f"request (addresses {c['addrs']}, status {c['status']}, body {c['body']['kind']}, {c['framing']}, fault {c['fault']}, redirects {c['redirect']})"


def probes(rec, c, expect, rows):
    f = c["fault"]
    if expect == "sources":
        rec.probe("good" if rows else "no_records")
        if f in ("delay", "drip"):
            rec.probe("slow_but_good")
        if c["redirect"]:
            rec.probe("redirect")
        if len(c["addrs"]) > 1:
            rec.probe("second_address")
        return
    a = c["addrs"][-1]
    if a in ("refuse", "unreachable"):
        rec.probe("refused")
    elif a == "dns":
        rec.probe("dns")
    elif a != "ok" and expect == "timeout":
        rec.probe("connect_stall")
    elif f == "stall":
        rec.probe("stall_before" if expect == "timeout" else "stall_body")
    elif f == "cut":
        rec.probe("cut_off")
    elif f in ("reset", "reset_on_send"):
        rec.probe("reset")
    elif c["status"] >= 400:
        rec.fault(f"status-{c['status']}")
        rec.probe("error_status_with_catalogue" if http(c)[2] else "error_status")
    elif rows is None:
        rec.fault("not-a-catalogue")
        rec.probe("not_a_catalogue")
        if c["body"].get("text", "\n").count("\n") == 0:
            rec.probe("one_line_body")


def shrink(plan):
    calls = plan["calls"]
    if len(calls) > 1:
        for i in range(len(calls)):
            yield dict(plan, calls=calls[:i] + calls[i + 1:])
    for i, c in enumerate(calls):
        for k, v in {"fault": None, "addrs": ["ok"], "redirect": 0, "gzip": False, "framing": "length", "cuts": [], "status": 200, "epoch": None, "num": None, "op": "get",
                     "timeout": 30.0}.items():
            if c[k] != v:
                yield dict(plan, calls=calls[:i] + [dict(c, **{k: v})] + calls[i + 1:])
        if c["body"]["kind"] == "catalogue" and c["body"]["n"] > 2:
            yield dict(plan, calls=calls[:i] + [dict(c, body=dict(c["body"], n=2))] + calls[i + 1:])
