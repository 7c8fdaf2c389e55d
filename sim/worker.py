"""A warm process (torch and aihwkit loaded) which forks one child per simulated run."""
import ctypes
import gc
import importlib
import json
import os
import select
import signal
import sys
import time
import traceback


def die_with_parent():
    """A run that hangs must not outlive a worker that was ended."""
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except (OSError, AttributeError):
        pass


def run_child(prop, req, wfd):
    from sim import core, engine
    gc.disable()
    ctx = core.Ctx(req.get("tier", "quick"))
    out = {"id": req["id"]}
    scn = req.get("scn")
    try:
        if scn is None:
            rng = core.rng_for(req["seed"], prop.PID, req["index"])
            scn = prop.gen(rng, ctx.tier, req["index"])
            # what is executed is what a replay file holds
            scn = json.loads(json.dumps(scn))
            out["scn"] = scn
        engine.set_clock(1700000000000000000, 0)
        engine.seed_all(core.derive("run", scn.get("seed", 0)), engine.MODE_SEEDED)
        prop.execute(scn, ctx)
        out["status"] = "ok"
    except core.Violation as exc:
        out.update(status="violation", kind=exc.kind, msg=exc.msg[:2000], where=traceback.format_exc()[-2500:])
    except (KeyboardInterrupt, GeneratorExit):
        out.update(status="harness", kind="interrupted", msg="")
    except BaseException as exc:  # pylint: disable=broad-except
        text = traceback.format_exc()
        out.update(status="violation", kind="unexpected-" + type(exc).__name__, msg=str(exc)[:500], where=text[-3500:])
        if scn is None:
            out["status"] = "harness"
    out["stats"] = ctx.result()
    if req.get("trace") or out["status"] != "ok":
        out["trace"] = ctx.trace[-200:]
    data = json.dumps(out, default=str).encode()
    os.write(wfd, len(data).to_bytes(8, "big"))
    view = memoryview(data)
    while view:
        n = os.write(wfd, view)
        view = view[n:]


def supervise(prop, req):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            os.setpgid(0, 0)
            die_with_parent()
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 0)
            os.dup2(null, 1)
            if not req.get("stderr"):
                os.dup2(null, 2)
            run_child(prop, req, wfd)
        finally:
            os._exit(0)
    os.close(wfd)
    deadline = time.monotonic() + req.get("timeout", 60)
    buf = b""
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([rfd], [], [], left)
        if not ready:
            continue
        chunk = os.read(rfd, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(rfd)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, status = os.waitpid(pid, 0)
    if len(buf) >= 8 and len(buf) - 8 == int.from_bytes(buf[:8], "big"):
        return json.loads(buf[8:])
    out = {"id": req["id"], "stats": None}
    if timed_out:
        out.update(status="violation", kind="no-progress", msg=f"the run did not end within {req.get('timeout', 60)} s")
    elif os.WIFSIGNALED(status):
        out.update(status="violation", kind=f"killed-by-signal-{os.WTERMSIG(status)}", msg="the simulated process died")
        if os.WTERMSIG(status) == signal.SIGKILL:
            out["status"] = "harness"
    else:
        out.update(status="harness", kind="no-result", msg=f"exit status {status}")
    return out


def warm_up():
    """Whatever PyTorch loads on first use, so that no forked run has to."""
    import copy
    import io
    import pickle
    import torch
    for cls in (torch.optim.SGD, torch.optim.Adam, torch.optim.RMSprop):
        model = torch.nn.Sequential(torch.nn.Linear(3, 3), torch.nn.Conv2d(1, 1, 2), torch.nn.Conv1d(1, 1, 1))
        opt = cls(model.parameters(), lr=0.1)
        ((model[0](torch.rand(2, 3)) ** 2).sum() + model[1](torch.rand(1, 1, 3, 3)).sum()).backward()
        opt.step()
        opt.zero_grad()
        buf = io.BytesIO()
        torch.save({"m": model.state_dict(), "o": opt.state_dict()}, buf)
        buf.seek(0)
        opt.load_state_dict(torch.load(buf, weights_only=False)["o"])
        copy.deepcopy(model)
        pickle.loads(pickle.dumps(model))


def main():
    pid, lib = sys.argv[1], sys.argv[2]
    proto = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    from sim import engine
    try:
        engine.load(lib)
        warm_up()
        prop = importlib.import_module(f"sim.props.{pid.lower()}")
        if hasattr(prop, "warm"):
            prop.warm()
    except BaseException:  # pylint: disable=broad-except
        print(json.dumps({"fatal": traceback.format_exc()[-3000:]}), file=proto, flush=True)
        return
    gc.collect()
    gc.freeze()
    print(json.dumps({"ready": True}), file=proto, flush=True)
    for line in sys.stdin:
        req = json.loads(line)
        print(json.dumps(supervise(prop, req)), file=proto, flush=True)


if __name__ == "__main__":
    main()
