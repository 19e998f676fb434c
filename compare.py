"""Cross-configuration comparison for C25: every configuration's recorded results against the scalar configuration's."""
import os, json, subprocess
from concurrent.futures import ThreadPoolExecutor

REFERENCE = "scalar"

def compare(results, paths, outs, tier, only=None):
    """-> ({cfg: report}, [errors]); each report has the shape of a run report."""
    if REFERENCE not in results or len(results) < 2:
        return {}, ["the reference configuration gave no results"]
    def one(cfg):
        e = dict(os.environ, VERIF_TIER=tier, MC_CONFIG=cfg, MC_ONLY=only or "")
        p = subprocess.run([paths[REFERENCE], "compare", outs[REFERENCE], outs[cfg]], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if os.environ.get("MC_MEASURE"):
            for l in p.stderr.splitlines():
                print(cfg, l)
        for line in p.stdout.splitlines():
            if line.startswith("RESULT "):
                return cfg, json.loads(line[7:]), ""
        return cfg, None, f"compare {cfg}: exit {p.returncode} {p.stderr[-1000:]}"
    good, errs = {}, []
    with ThreadPoolExecutor(max_workers=8) as ex:
        for cfg, r, err in ex.map(one, [c for c in results if c != REFERENCE]):
            if r is None:
                errs.append(err)
            else:
                good[cfg] = r
    return good, errs
