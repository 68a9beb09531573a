"""One MPI rank of the harness:  run.py MODULE SCENARIOS.json OUTPREFIX

Runs every scenario of the list with scen_MODULE.run(scenario, env) and appends one JSON line per
scenario to OUTPREFIX.<rank>; a scenario that is started but not finished leaves a 'begin' line."""
import contextlib, importlib, json, os, sys, traceback

mod, scen, out = sys.argv[1:4]
B = os.environ.get("VERIF_DIR", "/verif") + "/build"
sys.path[:0] = [B + "/repo", B + "/harness", os.path.dirname(os.path.abspath(__file__))]
if os.environ.get("OMPI_COMM_WORLD_SIZE"):
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    from pyngcore import InitMPI
    InitMPI()
else:
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    from pyngcore import InitMPI
    InitMPI()
import ngsolve
import NgsAMG
import ngsv
ngsv.install_hooks()
ngsolve.ngsglobals.msg_level = 0


class Env:
    pass


env = Env()
env.comm, env.rank, env.np = comm, comm.Get_rank(), comm.Get_size()
m = importlib.import_module("scen_" + mod)
f = open("%s.%d" % (out, env.rank), "w")
for k, s in enumerate(json.load(open(scen))):
    f.write(json.dumps({"begin": k}) + "\n"); f.flush()
    try:
        ngsv.reset_counters()
        ngsv.set_delay(s.get("delay", 0), s.get("dseed", 0) * 97 + env.rank)
        if s.get("tm"):
            ngsolve.SetNumThreads(s["tm"])
        with ngsolve.TaskManager() if s.get("tm") else contextlib.nullcontext():
            r = m.run(s, env)
        ngsv.set_delay(0, 0)
        comm.Barrier()
        c = ngsv.counters()
        r["open"] = c["open"]; r["active"] = c["active"]; r["stray"] = ngsv.stray(); r["restarted"] = c["restarted"]
        comm.Barrier()
        f.write(json.dumps({"k": k, "r": r}) + "\n"); f.flush()
    except BaseException as e:
        f.write(json.dumps({"k": k, "exc": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc()[-1500:]}) + "\n"); f.flush()
        os._exit(3)
f.write(json.dumps({"done": 1}) + "\n"); f.flush()
comm.Barrier()
f.close()
os._exit(0)
