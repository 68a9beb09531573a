"""the background thread under schedules"""
try:
    import ngsv_thread
except Exception as e:
    ngsv_thread, why = None, str(e)


def run(s, env):
    if ngsv_thread is None:
        return {"skipped": why, "ev": []}
    return ngsv_thread.run(s["prog"], s["sched"], s["jobus"], s["limit"])
