"""Git histories for spec/VersionTrace.tla: runs operation lists in scratch repositories and
records the version the code under test reports there."""
import datetime
import importlib.util
import os
import random
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
PKG = "src/openscm_twolayermodel"
VERSION_PY = PKG + "/_version.py"
PAIRS = [("v2.0.0", "v2.0.0rc1"), ("v1.0.0", "v1.0.0.post1"), ("v10.20", "v9.9"), ("v0.3.0", "v0.3.0-rc.2"), ("v1.1", "v1.1+local"),
         ("v2.0", "v2.0a1"), ("v1.0.0", "v1.0.1"), ("v1.2.dev3", "v1.2.dev4")]
V_TAGS = ["v1.0.0", "v0.2.3", "v2.0.0-rc1", "v1.1+local.2", "v10.20", "v3.0-2-gabcdef0", "v1.0.0.post1", "v4+x-dirty", "v2021-04-27", "v1.2.dev3", "v5.0rev2", "vv2", "v0.1vv"]
O_TAGS = ["nightly-7", "release-3.1", "1.5", "V9", "rev1", "untagged", "dev"]


def _env(home):
    e = {k: v for k, v in os.environ.items() if not k.startswith("GIT_")}
    e.update(HOME=home, GIT_CONFIG_NOSYSTEM="1", GIT_CONFIG_GLOBAL="/dev/null", GIT_CEILING_DIRECTORIES=home,
             GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b",
             PYTHONDONTWRITEBYTECODE="1")
    return e


class History:
    def __init__(self, rng, whole=False):
        self.rng, self.whole = rng, whole
        self.home = tempfile.mkdtemp(prefix="vcs-")
        self.root = os.path.join(self.home, rng.choice(["repo", "openscm_twolayermodel-9.9", "x y"]))
        self.env = _env(self.home)
        os.makedirs(self.root)
        self.git("init", "-q", "-b", "main", ".")
        self.clock = 1600000000
        self.hashes = []
        self.n = 0
        self.events = []

    def git(self, *args, cwd=None):
        return subprocess.run(["git", *args], cwd=cwd or self.root, env=self.env, check=True, capture_output=True, text=True).stdout.strip()

    def write_tree(self):
        """The source under test"""
        dst = os.path.join(self.root, PKG)
        if self.whole:
            shutil.copytree(os.path.join(REPO, PKG), dst, ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
        else:
            os.makedirs(dst)
            shutil.copy(os.path.join(REPO, VERSION_PY), dst)
        attr = os.path.join(REPO, ".gitattributes")
        if os.path.exists(attr):
            shutil.copy(attr, self.root)

    # -- operations
    def op_init(self, op, ev):
        pass

    def op_commit(self, op, ev):
        first = not self.hashes
        if first:
            self.write_tree()
        with open(os.path.join(self.root, "notes.txt"), "a") as fh:
            fh.write("%d\n" % self.n)
        self.n += 1
        self.tick()
        self.git("add", "-A")
        self.git("commit", "-q", "-m", "c%d" % self.n)
        self.hashes.append(self.git("rev-parse", "HEAD"))
        ev["hash"], ev["date"] = self.hashes[-1], self.date

    def tick(self):
        """Moves the clocks on; the author's is another one"""
        self.clock += self.rng.choice([1, 60, 86400, 3 * 10**7])
        zone = self.rng.choice([0, 0, 330, -480, 60])
        text = "%s%02d%02d" % ("-" if zone < 0 else "+", *divmod(abs(zone), 60))
        self.env["GIT_AUTHOR_DATE"] = "%d +0000" % (self.clock - self.rng.choice([0, 100, 10**6]))
        self.env["GIT_COMMITTER_DATE"] = "%d %s" % (self.clock, text)
        there = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=self.clock, minutes=zone)
        self.date = there.strftime("%Y-%m-%dT%H:%M:%S") + text

    def op_merge(self, op, ev):
        self.tick()
        self.git("merge", "-q", "--no-ff", "-s", "ours", "-m", "merge", self.hashes[op["c"] - 1])
        self.hashes.append(self.git("rev-parse", "HEAD"))
        ev["hash"], ev["date"], ev["c"] = self.hashes[-1], self.date, op["c"]

    def op_tag(self, op, ev):
        args = ["-a", "-m", "x"] if op.get("annotated", self.rng.random() < 0.5) else []
        self.tick()
        self.git("tag", *args, op["t"], self.hashes[op["c"] - 1])
        ev["t"], ev["c"] = op["t"], op["c"]

    def op_untag(self, op, ev):
        self.git("tag", "-d", op["t"])
        ev["t"], ev["c"] = op["t"], op["c"]

    def op_checkout(self, op, ev):
        self.git("checkout", "-q", "--detach", self.hashes[op["c"] - 1])
        ev["c"] = op["c"]

    def op_branch(self, op, ev):
        self.git("checkout", "-q", "-B", op.get("b", "topic"))

    def op_ref(self, op, ev):
        """Where a remote branch was when it was last fetched"""
        self.git("update-ref", "refs/remotes/origin/" + op["b"], self.hashes[op["c"] - 1])

    def op_modify(self, op, ev):
        how = op.get("how") or self.rng.choice(["edit", "stage", "delete", "new", "mode", "rename", "source"])
        path = os.path.join(self.root, "notes.txt")
        if how == "delete":
            os.remove(path)
        elif how == "mode":
            os.chmod(path, 0o644 if os.stat(path).st_mode & 0o100 else 0o755)
        elif how == "rename":
            self.git("mv", "notes.txt", "notes-%d.txt" % self.n)
        elif how == "source":  # the module itself
            with open(os.path.join(self.root, VERSION_PY), "a") as fh:
                fh.write("# local\n")
        elif how == "new":  # a file added to the index
            with open(os.path.join(self.root, "added-%d.txt" % self.n), "w") as fh:
                fh.write("%d" % self.rng.randrange(10**9))
            self.git("add", "-A")
        else:
            with open(path, "a") as fh:
                fh.write("changed\n")
            if how == "stage":
                self.git("add", "notes.txt")

    def op_restore(self, op, ev):
        self.git("reset", "-q", "--hard")

    def op_untracked(self, op, ev):
        with open(os.path.join(self.root, "untracked-%d" % self.n), "w") as fh:
            fh.write("x")
        # never swept up by a later commit
        with open(os.path.join(self.root, ".git", "info", "exclude"), "a") as fh:
            fh.write("untracked-*\n")

    # -- observations
    def versions(self, root, src, **kw):
        """What the module at root reports"""
        o = dict(src=src, raised="", version="", full="", dirty="none", date="", **kw)
        saved = dict(os.environ)
        err = os.dup(2)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)
        try:
            os.environ.clear()
            os.environ.update(self.env)
            if kw.get("nogit"):
                os.environ["PATH"] = self.home
            spec = importlib.util.spec_from_file_location("v_under_test", os.path.join(root, VERSION_PY))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            v = m.get_versions()
            o["version"] = str(v["version"])
            o["full"] = str(v["full-revisionid"])
            o["date"] = str(v["date"] or "")
            o["dirty"] = {True: "yes", False: "no"}.get(v["dirty"], "none")
        except Exception as exc:  # pylint: disable=broad-except
            o["raised"] = "%s: %s" % (type(exc).__name__, exc)
        finally:
            os.environ.clear()
            os.environ.update(saved)
            os.dup2(err, 2)
            os.close(err)
            os.close(null)
        return o

    def package(self):
        o = dict(src="package", raised="", version="", full="", dirty="none")
        code = "import sys; sys.path.insert(0, sys.argv[1]); import openscm_twolayermodel as m; print('VERSION ' + m.__version__)"
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", code, os.path.join(self.root, "src")], env=self.env, capture_output=True,
                           text=True, cwd=self.home)
        lines = [x for x in r.stdout.splitlines() if x.startswith("VERSION ")]
        if lines:
            o["version"] = lines[-1][8:]
        else:
            o["raised"] = r.stderr[-300:]
        return o

    def export(self, c, dirs):
        """Archive of commit c unpacked into a directory tree with these names (innermost first)"""
        base = tempfile.mkdtemp(prefix="exp", dir=self.home)
        root = os.path.join(base, *reversed(dirs))
        os.makedirs(root)
        subprocess.run("git archive --format=tar %s | tar -x -C '%s'" % (c, root), shell=True, check=True, cwd=self.root, env=self.env,
                       capture_output=True)
        return root

    def bare(self, dirs):
        """The sources without any history"""
        base = tempfile.mkdtemp(prefix="dir", dir=self.home)
        root = os.path.join(base, *reversed(dirs))
        os.makedirs(os.path.join(root, PKG))
        shutil.copy(os.path.join(REPO, VERSION_PY), os.path.join(root, PKG))
        return root

    def dirs(self):
        rng = self.rng
        d = [rng.choice(["src", "pkg", "openscm-twolayermodel-1", "build"]) for _ in range(3)]
        if rng.random() < 0.8:
            d[rng.randrange(3)] = "openscm_twolayermodel-" + rng.choice(["1.2.3", "0.2.3.dev1", "v2", "2.0-rc1"])
        return d

    def observe(self, op):
        out = []
        if self.hashes:
            out.append(self.versions(self.root, "checkout"))
            if op.get("link"):  # the package reached through a symbolic link
                base = tempfile.mkdtemp(prefix="link", dir=self.home)
                os.makedirs(os.path.join(base, "src"))
                os.symlink(os.path.join(self.root, PKG), os.path.join(base, PKG))
                out.append(self.versions(base, "checkout"))
        if op.get("worktree") and self.hashes:
            c = self.rng.randrange(len(self.hashes))
            path = os.path.join(tempfile.mkdtemp(prefix="wt", dir=self.home), "w")
            self.git("worktree", "add", "-q", "--detach", path, self.hashes[c])
            out.append(self.versions(path, "worktree", c=c + 1))
        if op.get("package") and self.whole and self.hashes:
            out.append(self.package())
        if op.get("archive") and self.hashes:
            c = self.git("rev-parse", "HEAD")
            if op.get("of"):
                c = self.hashes[op["of"] - 1]
            dirs = self.dirs()
            root = self.export(c, dirs)
            out.append(self.versions(root, "archive", c=self.hashes.index(c) + 1, dirs=dirs))
        if op.get("dir"):
            dirs = self.dirs()
            out.append(self.versions(self.bare(dirs), "dir", dirs=dirs))
        if op.get("nogit"):  # no git program: as if there were no history
            dirs = ["repo", "none", "none"]
            root = self.bare(dirs)
            subprocess.run(["git", "init", "-q", root], env=self.env, check=True, capture_output=True)
            out.append(self.versions(root, "dir", dirs=dirs, nogit=True))
        if op.get("nocommit"):
            dirs = self.dirs()
            root = self.bare(dirs)
            subprocess.run(["git", "init", "-q", root], env=self.env, check=True, capture_output=True)
            out.append(self.versions(root, "dir", dirs=dirs))
        return out

    def run(self, ops):
        try:
            for op in ops:
                ev = {"op": op["op"], "crash": "", "obs": []}
                getattr(self, "op_" + op["op"])(op, ev)
                if not op.get("blind"):
                    ev["obs"] = self.observe(op)
                self.events.append(ev)
            return self.events
        finally:
            shutil.rmtree(self.home, ignore_errors=True)


def record(job):
    ops, seed, whole = job["ops"], job["seed"], job.get("whole", False)
    return History(random.Random(seed), whole).run(ops)


def generate(seed, i, size=None):
    """A random history"""
    rng = random.Random("%s/vcs/%d" % (seed, i))
    ops = [{"op": "init", "dir": True, "nogit": rng.random() < 0.3, "nocommit": rng.random() < 0.5}]
    n, head, dirty = 0, 0, False
    anc = {}
    tags = {}
    used = set()
    size = size or rng.choice([6, 10, 16, 25])
    while len(ops) < size:
        r = rng.random()
        op = None
        if n == 0 or r < 0.35:
            n += 1
            anc[n] = {n} | (anc[head] if head else set())
            head, dirty = n, False
            op = {"op": "commit"}
        elif r < 0.5:
            t = rng.choice(V_TAGS + O_TAGS)
            if t not in used:
                c = head if rng.random() < 0.7 else rng.randrange(1, n + 1)
                used.add(t)
                tags[t] = c
                op = {"op": "tag", "t": t, "c": c}
        elif r < 0.54 and n:  # several on one commit
            pair = list(rng.choice(PAIRS))
            rng.shuffle(pair)
            for t in pair:
                if t not in used:
                    used.add(t)
                    tags[t] = head
                    ops.append({"op": "tag", "t": t, "c": head, "archive": True})
        elif r < 0.58 and tags:
            t = rng.choice(sorted(tags))
            op = {"op": "untag", "t": t, "c": tags.pop(t)}
            used.discard(t)
        elif r < 0.7:
            if dirty:
                dirty = False
                op = {"op": "restore"}
            elif n > 1:
                head = rng.randrange(1, n + 1)
                op = {"op": "checkout", "c": head}
        elif r < 0.77:
            if not dirty:
                dirty = True
                op = {"op": "modify"}
        elif r < 0.88:
            cs = [c for c in anc if c not in anc[head] and head not in anc[c]]
            if not dirty and cs:
                c = rng.choice(cs)
                n += 1
                anc[n] = {n} | anc[head] | anc[c]
                head = n
                op = {"op": "merge", "c": c}
        elif r < 0.91:
            op = {"op": "untracked"}
        elif r < 0.95:
            c = rng.choice(sorted(set(tags.values())) or [1]) if rng.random() < 0.6 else rng.randrange(1, n + 1)
            op = {"op": "ref", "b": rng.choice(["main", "fix-2", "HEAD", "release/2.0"]), "c": c}
            if rng.random() < 0.7:
                op["of"] = c
        else:
            op = {"op": "branch", "b": rng.choice(["topic", "main", "fix-it", "feature/2-x"])}
        if op and n and rng.random() < 0.25:  # archive another commit than the one checked out
            op["of"] = rng.choice(sorted(set(tags.values())) or [1])
        if op:
            op["archive"] = rng.random() < 0.35 or "of" in op
            op["dir"] = rng.random() < 0.15
            op["worktree"] = rng.random() < 0.1
            op["link"] = rng.random() < 0.1
            ops.append(op)
    if i % 60 == 31:  # far from the nearest tag
        if dirty:
            ops.append({"op": "restore", "blind": True})
        tag = rng.choice(["v7.0", "v7.0", None])
        if tag:
            ops.append({"op": "tag", "t": tag, "c": head, "blind": True})
        ops += [{"op": "commit", "blind": True} for _ in range(rng.randrange(95, 125))]
        ops += [{"op": "commit"}] * 7
    whole = i % 25 == 0
    if whole:
        for op in ops[-3:]:
            op["package"] = True
    return {"ops": ops, "seed": "%s/%d" % (seed, i), "whole": whole}


def from_walk(walk, seed, i):
    """A behaviour of spec/Versions.tla as a job"""
    rng = random.Random("%s/vw/%d" % (seed, i))
    ops = [{"op": "init"}]
    for act in walk:
        op = dict(act)
        op["archive"] = rng.random() < 0.2
        ops.append(op)
    return {"ops": ops, "seed": "%s/w/%d" % (seed, i)}
