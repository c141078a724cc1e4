"""A worker: a pristine process that forks one child per simulated run."""
import importlib
import json
import os
import sys
import traceback


def main():
    name, scratch, shared, tier = sys.argv[1:5]
    # the protocol uses private descriptors: the code under test gets its own
    out = os.fdopen(os.dup(1), "w")
    inp = os.fdopen(os.dup(0), "r")
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get("SIM_DEBUG"):
        os.dup2(devnull, 2)
    os.close(devnull)
    from sim import core, ctx, guard
    guard.install()
    prop = importlib.import_module("sim.props." + name.lower())
    try:
        prop.preload()
        import gc
        gc.collect()
        gc.freeze()
    except BaseException:
        out.write(json.dumps({"fatal": traceback.format_exc()}) + "\n")
        out.flush()
        return
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    for line in iter(inp.readline, ""):
        job = json.loads(line)
        world = None
        try:
            if "world" in job:
                world = job["world"]
            else:
                world = json.loads(json.dumps(
                    prop.gen(core.rng_for(job["seed"], name, job["index"]), job["index"], tier)))
            try:
                res = ctx.fork_call(ctx.run_world, (prop, world, scratch, shared, tier),
                                    timeout=job.get("timeout") or getattr(prop, "TIMEOUT", 60.0), new_group=True)
            except ctx.ChildDied as e:
                if e.signal in (4, 6, 7, 8, 11):
                    res = {"viol": {"class": "crash", "msg": "the process was killed by signal %d" % e.signal}}
                else:
                    res = {"error": str(e)}
            except ctx.ChildTimeout as e:
                res = {"error": "timeout: %s" % e, "timeout": True}
            except Exception:
                res = {"error": traceback.format_exc()}
        except Exception:
            res = {"error": traceback.format_exc()}
        if res.get("viol") or res.get("error") or job.get("want_world"):
            res["world"] = world
        else:
            res["wkey"] = core.digest(world)
        if "world" in res:
            res["wkey"] = core.digest(world)
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
