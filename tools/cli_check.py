"""D01: runs the real stagedpipe-cli, builds what it generates and runs that.

The oracle is the outcome: exit codes, the files before and after, the Go
compiler on the generated sources, and the output of the generated program
under several numbers of processors, with the race detector in part.
"""
import concurrent.futures, glob, json, os, random, re, shutil, subprocess

NOBODY = 65534

# Names that mean something in the generated sources, to the build or to Go.
NAMES = ["mypipeline", "sm", "data", "pipeline", "stagedpipe", "context", "flag", "fmt", "log", "runtime", "xsm", "rg", "err", "done", "out", "req", "ctx",
         "reqCtx", "parallelism", "pipelineErr", "error", "string", "int", "nil", "make", "append", "true", "any", "init", "SM", "Data", "NewSM", "v2", "X",
         "my_test", "a_linux", "a_windows", "b_windows_arm64", "under_score", "trailing_", "internal", "cmd", "pkg", "src", "lib", "i", "Request", "NewRequest",
         "sync", "os", "time", "strings", "p9", "aVeryLongPackageNameThatGoesOnAndOnAndOnForever", "example", "test", "tests", "util", "etl", "iota", "len", "panic",
         "print", "println", "recover", "close", "Close", "Start", "gen", "mainpkg", "Main", "data_", "unsafe", "main_windows"]
ROOTS = ["example.test/m", "github.com/johnsiilver/test", "m", "example.test/a/b/c-d.e/f_g", "example.test/m/v3", "gitlab.com/x/y.git", "example.test/UPPER/x"]


def rand_name(r):
    first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
    while True:
        n = r.choice(first) + "".join(r.choice(first + "0123456789_") for _ in range(r.randrange(0, 14)))
        if n not in ("main", "documentation", "break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough", "for", "func", "go", "goto", "if",
                     "import", "interface", "map", "package", "range", "return", "select", "struct", "switch", "type", "var", "vendor", "testdata"):
            return n


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(root, n)
            rel = os.path.relpath(p, d)
            if os.path.islink(p):
                out[rel] = "link " + os.readlink(p)
            elif os.path.isdir(p):
                out[rel] = "dir"
            else:
                with open(p, "rb") as f:
                    out[rel] = f.read()
    return out


class Checker:
    def __init__(self, work, seed, tier, repo, here, env, gobin):
        self.work, self.repo, self.env, self.go, self.tier = work, repo, env, gobin, tier
        self.seed = seed
        self.fails, self.problems = [], []
        self.tot = dict(evaluations=0, distinct=set(), cases=0, events=0, min_events=200, obs={}, samples=[], points=0, hits=0, race=True,
                        rule="a case is a package path, the options and the files that exist before; distinct by these")
        self.sudo = True

    def sh(self, cmd, cwd, user=False, **kw):
        env = dict(self.env)
        env.update(kw)
        args = {}
        if user and self.sudo:
            env["HOME"] = cwd
            args = dict(user=NOBODY, group=NOBODY, extra_groups=[])
        try:
            return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300, **args)
        except PermissionError:
            if not args:
                raise
            self.sudo = False
            return self.sh(cmd, cwd, False, **kw)

    def obs(self, k, n=1):
        self.tot["obs"][k] = self.tot["obs"].get(k, 0) + n

    def fail(self, case, msg):
        self.fails.append(dict(case="stagedpipe-cli", params=case, msg=msg))

    def event(self, n=1):
        self.tot["events"] += n

    def dir(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d)
        if self.sudo:
            os.chown(d, NOBODY, NOBODY)
        return d

    def cli(self, args, cwd):
        self.event()
        return self.sh([self.bin, "init"] + args, cwd, user=True)

    def gomod(self, d, module):
        with open(os.path.join(self.repo, "go.mod")) as f:
            m = f.read()
        m = re.sub(r"^module .*$", f"module {module}", m, flags=re.M)
        m += "\nrequire github.com/gostdlib/concurrency v0.0.0\n\nreplace github.com/gostdlib/concurrency => " + self.repo + "\n"
        with open(os.path.join(d, "go.mod"), "w") as f:
            f.write(m)
        shutil.copy(os.path.join(self.repo, "go.sum"), os.path.join(d, "go.sum"))

    def judge_output(self, case, out, rc, how):
        lines = out.split("\n")
        nums = [l for l in lines if re.fullmatch(r"\d+", l)]
        self.event(len(lines))
        if rc != 0:
            self.fail(case, f"the generated program ends with code {rc} {how}:\n{out[-1500:]}")
        elif sorted(nums) != sorted(str(i) for i in range(10)):
            self.fail(case, f"the generated program prints the items {nums} {how}, its items are 0 to 9:\n{out[-800:]}")
        elif "pipeline ran successfully" not in lines or "had an error" in out:
            self.fail(case, f"the generated program does not report success {how}:\n{out[-800:]}")
        elif "WARNING: DATA RACE" in out:
            self.fail(case, f"the generated program has a data race {how}:\n{out[:3000]}")

    def generated(self, k, root, name, main, race, long):
        """One package path."""
        path = f"{root}/{name}"
        case = f"-p {path}" + (" -m" if main else "")
        d = self.dir(f"gen{k}")
        try:
            keep = {"notes.txt": "keep me\n", "other/x.txt": "keep me too\n"}
            for n, v in keep.items():
                os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
                with open(os.path.join(d, n), "w") as f:
                    f.write(v)
            before = snapshot(d)
            args = (["--pkg", path] if long else ["-p", path]) + ((["--createMain"] if long else ["-m"]) if main else [])
            if k % 3 == 1:
                args.reverse()
                args = [x for x in args if x in ("-m", "--createMain")] + (["--pkg=" + path] if long else ["-p" + path])
            r = self.cli(args, d)
            if r.returncode != 0:
                self.fail(case, f"the command fails:\n{r.stdout[-1500:]}")
                return
            after = snapshot(d)
            for n, v in before.items():
                if after.get(n) != v:
                    self.fail(case, f"the command changed {n}")
            new = sorted(n for n in after if n not in before)
            self.event(len(new))
            pkgfiles = [n for n in new if n.startswith(name + "/")]
            extra = [n for n in new if n != name and not n.startswith(name + "/") and not (main and n == "main.go")]
            if after.get(name) != "dir" or not [n for n in pkgfiles if n.endswith(".go")]:
                self.fail(case, f"there is no package directory {name} with source after it, but {new}")
                return
            if extra:
                self.fail(case, f"the command also created {extra}")
            if main != ("main.go" in after):
                self.fail(case, f"main.go exists: {'main.go' in after}")
                return
            self.gomod(d, root)
            if not main:
                # A program that uses what the package offers.
                with open(os.path.join(d, "use.go"), "w") as f:
                    f.write(USE.replace("PATH", path))
            binary = os.path.join(d, "prog.bin")
            cmd = [self.go, "build", "-mod=mod", "-o", binary] + (["-race"] if race else []) + ["."]
            r = self.sh(cmd, d)
            self.event()
            if r.returncode != 0:
                if "prog.bin" not in os.listdir(d):
                    self.fail(case, f"what the command generated does not compile:\n{r.stdout[-2500:]}")
                return
            self.obs("generated programs built")
            for n, procs in enumerate([1, 2, 8] * (1 if self.tier == "quick" else 10)):
                r = self.sh([binary], d, user=True, GOMAXPROCS=str(procs), GORACE="halt_on_error=0 exitcode=0")
                self.obs("runs of generated programs")
                self.judge_output(case, r.stdout, r.returncode, f"with {procs} processors")
                if self.fails:
                    return
            # A second time the directory exists.
            before = snapshot(d)
            r = self.cli(["-p", path] + (["-m"] if main else []), d)
            self.unchanged(case + ", a second time", d, before, r)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def unchanged(self, case, d, before, r):
        self.obs("refused runs")
        after = snapshot(d)
        self.event(len(after))
        if r.returncode == 0:
            self.fail(case, "the package directory exists and the command does not fail")
        for n, v in before.items():
            if after.get(n) != v:
                self.fail(case, f"the package directory exists and the command changed {n}")
                return
        if set(after) != set(before):
            self.fail(case, f"the package directory exists and the command created {sorted(set(after) - set(before))}")

    def existing(self, k, r, root, name, main):
        """The package directory exists."""
        path = f"{root}/{name}"
        d = self.dir(f"old{k}")
        kind = r.choice(["empty", "data", "all", "other", "file", "readonly", "link"])
        files = {"main.go": "package main // mine\n", "go.mod": "module x\n"} if r.randrange(2) else {}
        p = os.path.join(d, name)
        if kind == "file":
            files[name] = "a file\n"
        elif kind == "link":
            os.makedirs(os.path.join(d, "elsewhere"))
            files["elsewhere/data.go"] = "package mine\n"
            os.symlink("elsewhere", p)
        else:
            os.makedirs(p)
            if kind in ("data", "all"):
                files[f"{name}/data.go"] = "package mine\n"
            if kind == "all":
                files[f"{name}/{name}.go"] = "package mine\n"
                files[f"{name}/main.go"] = "package mine\n"
                files[f"{name}/pipeline.go"] = "package mine\n"
            if kind == "other":
                files[f"{name}/sub/notes"] = "mine\n"
        for n, v in files.items():
            n = os.path.join(d, n)
            os.makedirs(os.path.dirname(n), exist_ok=True)
            with open(n, "w") as f:
                f.write(v)
        if self.sudo:
            for rootd, dirs, fs in os.walk(d):
                for n in dirs + fs:
                    os.chown(os.path.join(rootd, n), NOBODY, NOBODY, follow_symlinks=False)
        if kind == "readonly":
            os.chmod(p, 0o555)
        case = f"-p {path}" + (" -m" if main else "") + f", existing {kind} {sorted(files)}"
        self.tot["distinct"].add(case)
        self.tot["evaluations"] += 1
        before = snapshot(d)
        res = self.cli(["-p", path] + (["-m"] if main else []), d)
        self.unchanged(case, d, before, res)
        os.chmod(p, 0o755)
        shutil.rmtree(d, ignore_errors=True)
        if len(self.tot["samples"]) < 12:
            self.tot["samples"].append(f"{case}: exit {res.returncode}")


USE = '''package main

import (
	"context"
	"fmt"
	"os"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	zz "PATH"
)

func main() {
	sm, err := zz.NewSM()
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	p, err := stagedpipe.New("x", 3, stagedpipe.StateMachine[zz.Data](sm), stagedpipe.DAG[zz.Data]())
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	g := p.NewRequestGroup()
	done := make(chan bool)
	go func() {
		for r := range g.Out() {
			if r.Err != nil {
				fmt.Println("had an error", r.Err)
			}
			fmt.Println(r.Data.Item)
		}
		close(done)
	}()
	for i := 0; i < 10; i++ {
		if err := g.Submit(zz.NewRequest(context.Background(), zz.Data{Item: i})); err != nil {
			fmt.Println("had an error", err)
		}
	}
	g.Close()
	<-done
	p.Close()
	fmt.Println("pipeline ran successfully")
}
'''


def run(pid, spec, work, seed, tier, repo, here, env, gobin):
    c = Checker(work, seed, tier, repo, here, env, gobin)
    c.bin = os.path.join(work, "cli.bin")
    r = c.sh([gobin, "build", "-o", c.bin, "./pipelines/stagedpipe/tools/stagedpipe-cli"], repo)
    if r.returncode != 0:
        c.problems.append("stagedpipe-cli does not build:\n" + r.stdout[-4000:])
        return c.fails, [], c.problems, c.tot
    os.chmod(c.bin, 0o755)
    rnd = random.Random(seed * 7919 + 1)
    names = list(NAMES)
    while len(names) < (len(NAMES) + (14 if tier == "quick" else 300)):
        n = rand_name(rnd)
        if n not in names:
            names.append(n)
    jobs = []
    for i, n in enumerate(names):
        both = tier != "quick" or i < 2
        mains = [True, False] if both else [rnd.randrange(4) > 0]
        if n in ("data", "pipeline", "context", "a_windows", "my_test", "error"):
            mains = [True, False]
        for m in mains:
            root = ROOTS[0] if rnd.randrange(2) else rnd.choice(ROOTS)
            jobs.append((len(jobs), root, n, m, i < 2 or rnd.randrange(12) == 0, rnd.randrange(3) == 0))
    old = [(rnd.choice(ROOTS), n, rnd.randrange(2) == 0) for n in names]
    for k, (root, n, m) in enumerate(old):
        c.existing(k, rnd, root, n, m)
    # The first one alone, it fills the build cache.
    c.generated(*jobs[0])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for j, f in [(j, ex.submit(c.generated, *j)) for j in jobs[1:]]:
            f.result()
    for j in jobs:
        case = f"-p {j[1]}/{j[2]} main={j[3]} race={j[4]} long={j[5]}"
        c.tot["distinct"].add(case)
        c.tot["evaluations"] += 1
        if j[0] % 12 == 0:
            c.tot["samples"].append(case)
    c.tot["cases"] = c.tot["evaluations"]
    if not c.fails and c.tot["events"] < c.tot["min_events"]:
        c.problems.append("too few events")
    return c.fails, [], c.problems, c.tot
