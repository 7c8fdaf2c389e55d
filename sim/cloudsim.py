"""A simulated AIHW Composer cloud below the client's HTTP adapter: service, object storage, network and their faults."""
import io
import json

BASE = "2026-01-01T00:00:00.000000Z"


class Network:
    """Everything the HTTP client of this process can reach."""

    def __init__(self, ctx, sched=None):
        self.ctx, self.sched = ctx, sched
        self.hosts = {}
        self.log = []                 # (actor, method, host, path, outcome)
        self.actor = None             # who is sending (set by the harness)
        self.faults = {}              # (actor, n-th request of the actor) -> kind
        self.counts = {}
        self.watch = lambda entry: None
        self.actor_of = None          # tells who is sending, where the harness does not say it
        self.last = {}                # actor -> [(request, outcome)] of its present operation

    def __enter__(self):
        import requests.adapters
        self.orig = requests.adapters.HTTPAdapter.send
        net = self

        def send(adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
            # pylint: disable=unused-argument,too-many-arguments
            return net.send(adapter, request, verify)
        requests.adapters.HTTPAdapter.send = send
        return self

    def __exit__(self, *exc):
        import requests.adapters
        requests.adapters.HTTPAdapter.send = self.orig

    def point(self):
        if self.sched is not None:
            actor = self.actor
            self.sched.point()
            self.actor = actor

    def begin(self, actor):
        self.actor = actor
        self.last[actor] = []

    def send(self, adapter, request, verify):
        # pylint: disable=too-many-branches
        import requests
        actor = self.actor if self.actor_of is None else self.actor_of()
        n = self.counts[actor] = self.counts.get(actor, 0) + 1
        fault = self.faults.get((actor, n))
        host = request.url.split("/")[2]
        path = "/" + request.url.split("/", 3)[3] if request.url.count("/") > 2 else "/"
        entry = {"actor": actor, "method": request.method, "host": host, "path": path, "headers": dict(request.headers),
                 "body": request.body, "fault": fault, "verify": verify, "status": None, "reply": None, "scheme": request.url.split(":")[0]}
        self.log.append(entry)
        self.last.setdefault(actor, []).append(entry)
        if fault == "not-a-dict" and path.endswith("/experiments/me"):
            fault = entry["fault"] = "garbage"
        if fault in ("garbage", "not-a-dict") and host.startswith("cos"):
            fault = entry["fault"] = "torn"
        if fault:
            self.ctx.fault("net-" + fault)
        self.watch(entry)
        self.point()
        if host not in self.hosts:
            raise requests.exceptions.ConnectionError(f"no such host: {host}")
        if fault == "refused":
            raise requests.exceptions.ConnectionError("connection refused (simulated)")
        if fault in ("404", "500", "503", "429"):
            status, headers, body = int(fault), {}, b"try again later"
        else:
            status, headers, body = self.hosts[host].handle(entry)
            if fault == "duplicate":
                self.hosts[host].handle(entry)
        entry["status"], entry["reply"] = status, body
        self.point()
        if fault == "lost-response":
            raise requests.exceptions.ReadTimeout("read timed out (simulated)")
        if fault == "reset":
            raise requests.exceptions.ConnectionError("connection reset by peer (simulated)")
        length = len(body)
        if fault == "torn":
            body = body[:len(body) // 2]
        elif fault == "garbage" and status < 300:
            body, headers = b"<html>proxy says hello</html>", {"Content-Type": "text/html"}
            length = len(body)
        elif fault == "not-a-dict" and status < 300:
            body = b"[]"
            length = 2
        import urllib3
        raw = urllib3.HTTPResponse(body=io.BytesIO(body), headers={"Content-Length": str(length), **headers}, status=status,
                                   reason={200: "OK", 201: "Created"}.get(status, "Status"), preload_content=False,
                                   enforce_content_length=True, request_method=request.method)
        return adapter.build_response(request, raw)


def reply(status, obj):
    return status, {"Content-Type": "application/json"}, json.dumps(obj).encode()


class Service:
    """The composer service of one host with its object storage host."""

    STATES = ("waiting", "validating", "validated", "running", "completed", "failed", "cancelled")

    def __init__(self, host, storage):
        self.host, self.storage_host = host, storage
        self.accounts = {}       # api token -> user
        self.jwts = {}           # jwt -> user
        self.experiments = {}    # id -> dict
        self.inputs, self.outputs, self.jobs = {}, {}, {}
        self.objects = {}        # path -> bytes
        self.grants = {}         # url -> (method, path)
        self.counter = 0
        self.issued = []
        self.redirects = False
        self.history = {}        # job id -> [(event number, status, output)]
        self.now = 0
        self.puts = []
        self.login_reply = {}    # actor -> a status instead of a login

    def new_id(self, kind):
        self.counter += 1
        return f"{kind}-{self.host.split('.')[0]}-{self.counter:04d}"

    def presign(self, method, path):
        self.counter += 1
        url = f"https://{self.storage_host}{path}?X-Sig=sig{self.counter}&X-Exp=900"
        self.grants[url.split(self.storage_host)[1]] = (method, path)
        return url

    def user_of(self, entry):
        auth = entry["headers"].get("Authorization", "")
        return self.jwts.get(auth[len("Bearer "):]) if auth.startswith("Bearer ") else None

    def handle(self, entry):
        # pylint: disable=too-many-return-statements,too-many-branches
        self.now += 1
        path, method = entry["path"], entry["method"]
        if entry["host"] == self.storage_host:
            return self.storage(entry)
        data = None
        if entry["body"]:
            try:
                data = json.loads(entry["body"])
            except ValueError:
                return reply(400, {"message": "not JSON"})
        if not path.startswith("/api/"):
            return reply(404, {"message": "no such endpoint"})
        parts = path[len("/api/"):].split("/")
        if parts == ["token", "login"] and method == "POST":
            if entry["actor"] in self.login_reply:
                status, obj = self.login_reply[entry["actor"]]
                return (status, {}, obj.encode()) if isinstance(obj, str) else reply(status, obj)
            user = self.accounts.get((data or {}).get("token"))
            if user is None:
                return reply(400, {"message": "invalid token for you"})
            self.counter += 1
            jwt = f"jwt-{user}-{self.counter}"
            self.jwts[jwt] = user
            self.issued.append((user, jwt))
            return reply(200, {"jwt": jwt})
        user = self.user_of(entry)
        if user is None:
            return reply(401, {"message": "who are you?"})
        entry["user"] = user
        return self.api(user, method, parts, data)

    def view(self, eid):
        exp = self.experiments[eid]
        out = {k: exp[k] for k in ("id", "name", "category", "createdAt")}
        if exp["input"]:
            out["input"] = {"id": exp["input"]}
        if exp["job"]:
            out["job"] = self.view_job(exp["job"])
        return out

    def view_job(self, jid):
        job = self.jobs[jid]
        out = {"id": jid, "status": job["status"]}
        if job["output"]:
            out["output"] = job["output"]
        return out

    def api(self, user, method, parts, data):
        # pylint: disable=too-many-return-statements,too-many-branches
        kind = parts[0]
        owned = {e: x for e, x in self.experiments.items() if x["user"] == user}
        if kind == "experiments":
            if method == "POST" and len(parts) == 1:
                eid = self.new_id("exp")
                self.experiments[eid] = {"id": eid, "user": user, "name": data["name"], "category": data["category"], "input": None,
                                         "job": None, "createdAt": f"2026-01-01T00:00:{self.counter % 60:02d}.{self.counter:06d}Z",
                                         "born": self.now}
                return reply(200, self.view(eid))
            if method == "GET" and parts[1:] == ["me"]:
                return reply(200, [self.view(e) for e in owned])
            if method == "GET" and len(parts) == 2 and parts[1] in owned:
                return reply(200, self.view(parts[1]))
        elif kind == "inputs":
            if method == "POST" and len(parts) == 1 and data.get("experiment") in owned:
                iid = self.new_id("in")
                self.inputs[iid] = {"user": user, "experiment": data["experiment"], "device": data.get("device"), "path": f"/in/{iid}"}
                owned[data["experiment"]]["input"] = owned[data["experiment"]]["input"] or iid
                return reply(200, {"id": iid, "url": self.presign("PUT", f"/in/{iid}")})
            if method == "GET" and len(parts) == 3 and parts[2] == "file" and self.inputs.get(parts[1], {}).get("user") == user:
                return reply(200, {"url": self.presign("GET", self.inputs[parts[1]]["path"])})
        elif kind == "outputs":
            if method == "GET" and len(parts) == 3 and parts[2] == "file" and self.outputs.get(parts[1], {}).get("user") == user:
                return reply(200, {"url": self.presign("GET", self.outputs[parts[1]]["path"])})
        elif kind == "jobs":
            if method == "POST" and len(parts) == 1 and data.get("experiment") in owned:
                exp = owned[data["experiment"]]
                jid = self.new_id("job")
                self.jobs[jid] = {"user": user, "experiment": exp["id"], "device": data.get("device"), "status": "waiting",
                                  "output": None, "input_then": self.objects.get(self.inputs.get(exp["input"], {}).get("path"))}
                exp["job"] = exp["job"] or jid
                self.history[jid] = [(self.now, "waiting", None)]
                return reply(200, self.view_job(jid))
            if method == "GET" and len(parts) == 2 and self.jobs.get(parts[1], {}).get("user") == user:
                return reply(200, self.view_job(parts[1]))
        return reply(404, {"message": "no such thing"})

    def storage(self, entry):
        path = entry["path"]
        if path.startswith("/mirror"):
            path = path[len("/mirror"):]
        elif self.redirects:
            return 307, {"Location": f"https://{self.storage_host}/mirror{path}"}, b""
        if self.grants.get(path, ("", ""))[0] != entry["method"]:
            return 403, {}, b"SignatureDoesNotMatch"
        key = self.grants[path][1]
        if entry["method"] == "PUT":
            body = entry["body"]
            if hasattr(body, "read"):
                body = body.read()
            self.objects[key] = bytes(body or b"")
            self.puts.append(key)
            return 200, {}, b""
        if key not in self.objects:
            return 404, {}, b"NoSuchKey"
        return 200, {"Content-Type": "application/octet-stream"}, self.objects[key]

    # What happens in the cloud by itself.

    def advance(self, jid, status, output=None):
        """A job goes on; an output (bytes) is published before, with or after the status."""
        self.now += 1
        job = self.jobs[jid]
        if status is not None:
            job["status"] = status
        if output is not None:
            oid = self.new_id("out")
            self.objects[f"/out/{oid}"] = output
            self.outputs[oid] = {"user": job["user"], "path": f"/out/{oid}"}
            job["output"] = oid
        self.history[jid].append((self.now, job["status"], job["output"]))

    def expire(self, user):
        self.jwts = {j: u for j, u in self.jwts.items() if u != user}
