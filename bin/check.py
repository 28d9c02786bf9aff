#!/usr/bin/python3
"""
Decides one property: python3 bin/check.py C01

Every unit in units/*.c is a C file that #includes the real sources from /repo/src,
attaches the contracts in contracts/*.h to the functions in them and has one or more
targets. A target is a proof: goto-cc builds it from /repo's working tree,
goto-instrument --dfcc enforces the contract of the function under proof (and replaces
calls to callees by their contracts), and cbmc discharges every obligation. Failed
obligations are replayed natively (gcc, ASan/UBSan) with the verifier's counterexample.
"""
import concurrent.futures, glob, json, os, re, shlex, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
BUDGET = float(os.environ.get("VERIF_BUDGET", "780" if TIER == "quick" else "3300"))
START = time.time()

CFLAGS = ["-include", f"{VERIF}/include/vconfig.h", "-DLIBLOC_PRIVATE", f"-I{VERIF}/include", f"-I{VERIF}", f"-I{SRC}"]
CBMC_FLAGS = ["--unwinding-assertions", "--object-bits", "12", "--sat-solver", "cadical", "--json-ui", "--verbosity", "8"]

# Functions of libc which have no model and which are harmless (no result is used)
NOBODY_OK = {"hexdump", "clock", "time", "ERR_error_string", "ERR_get_error", "strerror", "perror"}


def remaining():
	return BUDGET - (time.time() - START)


class Target:
	def __init__(self, unit, name, attrs):
		self.unit = unit
		self.name = name
		self.id = f"{os.path.basename(unit)[:-2]}.{name}"
		self.a = attrs
		self.name = attrs.get("name", name)	# of the harness

	def get(self, key, default=""):
		return self.a.get(key, default)

	def lst(self, key):
		return [x for x in self.get(key).split(",") if x]

	@property
	def bounded(self):
		return self.get("level", "proof") == "bounded"


def load():
	targets = {}
	for unit in sorted(glob.glob(f"{VERIF}/units/*.c")):
		defaults = {}
		for line in open(unit):
			m = re.match(r"\s*//@\s*(\w+)\s*(.*)", line)
			if not m:
				continue
			kind, rest = m.groups()
			if kind == "unit":
				defaults.update(x.split("=", 1) for x in shlex.split(rest))
			elif kind == "target":
				parts = shlex.split(rest)
				attrs = dict(defaults)
				attrs.update(x.split("=", 1) for x in parts[1:])
				t = Target(unit, parts[0], attrs)
				targets[t.id] = t
	return targets


def run(cmd, timeout, mem_gb=None, **kw):
	def limit():
		os.setsid()
		if mem_gb:
			import resource
			resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
	try:
		p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limit, **kw)
		try:
			out, err = p.communicate(timeout=max(1, timeout))
			return p.returncode, out.decode(errors="replace"), err.decode(errors="replace")
		except subprocess.TimeoutExpired:
			try:
				os.killpg(p.pid, 9)
			except ProcessLookupError:
				pass
			p.communicate()
			return -999, "", "timeout"
	except OSError as e:
		return -998, "", str(e)


def parse_cbmc(out):
	"""Returns (results, nobody, verdict) from cbmc --json-ui, or None"""
	try:
		data = json.loads(out)
	except ValueError:
		return None
	results, nobody, verdict = None, set(), None
	for m in data:
		if "result" in m:
			results = m["result"]
		if "cProverStatus" in m:
			verdict = m["cProverStatus"]
		if "messageText" in m:
			x = re.search(r"no body for (?:callee|function) '?([\w$]+)", m["messageText"])
			if x:
				nobody.add(x.group(1))
	if results is None and verdict == "success":
		results = []
	if results is None:
		return None
	# The library computes addresses before it checks if they are in bounds, which is
	# not what any property is about. (cbmc reports everything that comes after such a
	# failure and has been proved as UNKNOWN.)
	results = [r for r in results if ".pointer_arithmetic." not in r["property"]]
	for r in results:
		if ".no-body." in r["property"]:
			nobody.add(r["property"].rsplit(".", 1)[1])
		if r["status"] == "UNKNOWN":
			r["status"] = "SUCCESS"
	return results, nobody, verdict


class Outcome:
	def __init__(self, target):
		self.t = target
		self.status = None		# ok, fail, undecided
		self.note = ""
		self.obligations = 0
		self.discharged = 0
		self.reach = 0
		self.failed = []
		self.time = 0.0
		self.cmds = []
		self.mode = "dfcc" if target.get("enforce") else "assert"
		self.unwind = None
		self.replay = None
		self.confirmed = False
		self.output = ""
		self.nobody = set()


def malloc_flags(t):
	if t.get("malloc") == "fail":
		return ["--malloc-may-fail", "--malloc-fail-null"]
	return ["--no-malloc-may-fail"]


def is_unwind(r):
	return ".unwind." in r["property"] or ".recursion" in r["property"] or "unwinding assertion" in r.get("description", "")


def is_frame(r):
	return ".assigns." in r["property"] or ".frees." in r["property"] or r["property"].startswith("__CPROVER_contracts_")


def is_reach(r):
	return r.get("description", "").startswith("REACH")


def prove(t, work, mode=None, variant_defs=()):
	o = Outcome(t)
	if mode:
		o.mode = mode
	defs = ["-D" + d for d in t.lst("defs")] + list(variant_defs)
	a, b = f"{work}/a.gb", f"{work}/b.gb"
	cmd = ["goto-cc"] + CFLAGS + ["-D__CPROVER__=1"] + defs + ["--function", t.name, t.unit, "-o", a]
	o.cmds.append(" ".join(cmd))
	rc, out, err = run(cmd, 120)
	if rc != 0:
		o.status, o.note, o.output = "broken", "goto-cc failed", (out + err)[-4000:]
		return o
	enforce, replace = t.get("enforce"), t.lst("replace")
	icmd = None
	if o.mode == "dfcc":
		icmd = ["goto-instrument", "--dfcc", t.name] + malloc_flags(t)
		if enforce and enforce != "-":
			icmd += ["--enforce-contract-rec" if t.get("rec") else "--enforce-contract", enforce]
		for f in replace:
			icmd += ["--replace-call-with-contract", f]
	else:
		icmd = ["goto-instrument"] + ([] if t.get("entry") else ["--drop-unused-functions"])
	for s in t.lst("stub"):
		icmd += ["--replace-calls", s]
	if icmd:
		# The stubs first: dfcc does not know them
		if o.mode == "dfcc" and t.lst("stub"):
			pre = ["goto-instrument"]
			for s in t.lst("stub"):
				pre += ["--replace-calls", s]
			o.cmds.append(" ".join(pre + [a, f"{work}/s.gb"]))
			rc, out, err = run(pre + [a, f"{work}/s.gb"], 120)
			if rc != 0:
				o.status, o.note, o.output = "broken", "goto-instrument failed", (out + err)[-4000:]
				return o
			a = f"{work}/s.gb"
			icmd = [x for i, x in enumerate(icmd) if x != "--replace-calls" and (i == 0 or icmd[i - 1] != "--replace-calls")]
		icmd += [a, b]
		o.cmds.append(" ".join(icmd))
		rc, out, err = run(icmd, 180)
		if rc != 0 or not os.path.exists(b):
			o.status, o.note, o.output = "broken", "goto-instrument failed", (out + err)[-4000:]
			return o
	else:
		b = a
	if t.get("entry"):
		# The harness calls this function itself (all other calls have been replaced)
		icmd = ["goto-instrument"] + [x for e in t.lst("entry") for x in ("--replace-calls", e)] + [b, f"{work}/f.gb"]
		o.cmds.append(" ".join(icmd))
		rc, out, err = run(icmd, 180)
		icmd = ["goto-instrument", "--drop-unused-functions", f"{work}/f.gb", f"{work}/e.gb"]
		if rc == 0:
			o.cmds.append(" ".join(icmd))
			rc, out, err = run(icmd, 180)
		if rc != 0:
			o.status, o.note, o.output = "broken", "goto-instrument failed", (out + err)[-4000:]
			return o
		b = f"{work}/e.gb"
	if t.get("loops"):
		# Contracts for loops
		for icmd in (["goto-instrument", "--add-library", b, f"{work}/l.gb"],
				["goto-instrument", "--loop-contracts-file", f"{VERIF}/contracts/loops/{t.get('loops')}", "--apply-loop-contracts", f"{work}/l.gb", f"{work}/m.gb"]):
			o.cmds.append(" ".join(icmd))
			rc, out, err = run(icmd, 180)
			if rc != 0:
				o.status, o.note, o.output = "broken", "goto-instrument failed", (out + err)[-4000:]
				return o
		b = f"{work}/m.gb"
	flags = list(CBMC_FLAGS) + malloc_flags(t)
	if t.get("leak"):
		flags.append("--memory-leak-check")
	flags += shlex.split(t.get("flags"))
	limit = float(t.get("timeout", "300"))
	if TIER != "quick":
		limit *= 3
	parsed = None
	for uw in [int(x) for x in t.get("unwind", "18,34,132,260").split(",")]:
		cmd = ["cbmc", b, "--unwind", str(uw)] + flags
		if t.get("unwindset"):
			cmd += ["--unwindset", t.get("unwindset")]
		t0 = time.time()
		rc, out, err = run(cmd, min(limit, remaining() - 60), mem_gb=20)
		o.time += time.time() - t0
		o.unwind = uw
		if rc == -999:
			o.status, o.note = "undecided", f"cbmc did not finish within its time limit (unwind {uw})"
			return o
		new = parse_cbmc(out)
		if new is None:
			o.status, o.note, o.output = "undecided", "cbmc gave no result", (out[-3000:] + err[-2000:])
			return o
		if any(r["status"] == "ERROR" for r in new[0]):
			o.status, o.note = "undecided", f"the solver ran out of memory (unwind {uw})"
			return o
		parsed = new
		results = parsed[0]
		bad = [r for r in results if r["status"] != "SUCCESS" and not is_reach(r)]
		if not any(is_unwind(r) for r in bad):
			break
		if any(not is_unwind(r) for r in bad):
			# A real failure: no need to look any deeper
			break
	o.cmds.append(" ".join(cmd))
	results, o.nobody, _ = parsed
	obl = [r for r in results if not is_reach(r)]
	o.obligations = len(obl)
	o.discharged = sum(r["status"] == "SUCCESS" for r in obl)
	shape = [r["description"] for r in results if is_reach(r) and r["description"].startswith("REACH SHAPE") and r["status"] == "FAILURE"]
	reach = [r for r in results if is_reach(r) and not r["description"].startswith("REACH SHAPE")]
	unused = [r["description"] for r in reach if r["description"].startswith("REACH USED") and r["status"] != "FAILURE"]
	o.reach = sum(r["status"] == "FAILURE" for r in reach)
	o.failed = [r for r in obl if r["status"] != "SUCCESS"]
	o.b, o.cmd = b, cmd
	unused += shape
	if unused:
		# The code does not use (any more) what this proof is about
		o.status, o.note = "undecided", "not applicable: " + ", ".join(unused)
	elif o.failed:
		if all(is_unwind(r) for r in o.failed):
			o.status, o.note = "unwind", "a loop or recursion does not end within the largest bound"
		else:
			o.status = "fail"
	elif not reach or o.reach < len(reach):
		o.status, o.note = "vacuous", "the end of the harness cannot be reached"
	elif not obl:
		o.status, o.note = "vacuous", "no obligations"
	else:
		o.status = "ok"
	return o


def included(unit):
	"""The sources from /repo/src that this unit #includes"""
	names, todo = set(), [unit]
	while todo:
		for line in open(todo.pop()):
			m = re.match(r'\s*#\s*include\s+"([\w./-]+)"', line)
			if not m:
				continue
			if m.group(1).endswith(".c"):
				names.add(os.path.basename(m.group(1)))
			else:
				for d in (f"{VERIF}/include", VERIF, f"{VERIF}/units"):
					p = os.path.join(d, m.group(1))
					if os.path.exists(p):
						todo.append(p)
						break
	return names


def native(t, work, sanitize=True, defs=()):
	exe = f"{work}/native{'-san' if sanitize else ''}"
	if os.path.exists(exe):
		return exe
	inc = included(t.unit)
	others = [p for p in sorted(glob.glob(f"{SRC}/*.c"))
		if os.path.basename(p) not in inc and not os.path.basename(p).startswith("test-")]
	san = ["-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all"] if sanitize else []
	wrap = ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "reallocarray", "strdup", "asprintf", "free"))]
	cmd = ["gcc", "-g", "-O1", "-w", "-fno-builtin", f"-DHARNESS={t.name}"] + san + CFLAGS + ["-D" + d for d in t.lst("defs")] + list(defs) \
		+ [t.unit, f"{VERIF}/include/native.c"] + others + wrap + ["-lcrypto", "-lresolv", "-o", exe]
	rc, out, err = run(cmd, 180)
	if rc != 0:
		open(f"{work}/native.log", "w").write(" ".join(cmd) + "\n" + out + err)
		return None
	return exe


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=7:allocator_may_return_null=1",
	UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1", TZ="UTC")


def trace_inputs(o, prop, work):
	cmd = [x for x in o.cmd] + ["--trace", "--property", prop]
	rc, out, err = run(cmd, min(200, remaining() - 30), mem_gb=20)
	try:
		data = json.loads(out)
	except ValueError:
		return None
	for m in data:
		for r in m.get("result", []):
			if r.get("property") == prop and r.get("trace"):
				inputs = []
				for s in r["trace"]:
					if s.get("stepType") == "input":
						for v in s.get("values", []):
							b = v.get("binary")
							if b is not None and re.fullmatch(r"[01]+", b):
								inputs.append((s["inputID"], int(b, 2)))
				return inputs
	return None


def confirm(o, work):
	"""Looks for a concrete failing input on the real code"""
	t = o.t
	if t.get("native") == "0":
		witness(o, work)
		return
	exe = native(t, work)
	if not exe:
		o.output += "\nno native build: " + (open(f"{work}/native.log").read()[-1500:] if os.path.exists(f"{work}/native.log") else "")
		return
	order = sorted(o.failed, key=lambda r: (is_unwind(r), "assigns" in r["property"], ".assertion." not in r["property"]))
	for r in order[:3]:
		if remaining() < 100 or not hasattr(o, "cmd"):
			break
		inputs = trace_inputs(o, r["property"], work)
		if inputs is None:
			continue
		f = f"{work}/ce.in"
		with open(f, "w") as fh:
			for n, v in inputs:
				fh.write(f"{n} 0x{v:x}\n")
		rc, out, err = run([exe, "replay", f], 40, env=ENV, cwd=work)
		if rc not in (0, -999):
			o.confirmed = True
			o.replay = dict(kind="verifier counterexample", obligation=r["property"], inputs=[f"{n} 0x{v:x}" for n, v in inputs],
				exit=rc, output=(out + err)[-6000:])
			return
		o.output += f"\ncounterexample of {r['property']} replayed: exit {rc} {out[-300:]}\n  " + "\n  ".join(f"{n} 0x{v:x}" for n, v in inputs[:200])
	search(o, work, exe)


def witness(o, work):
	"""Searches with other harnesses that can run natively, since this one cannot"""
	for w in o.t.lst("witness"):
		if o.confirmed:
			break
		t = Target(o.t.unit, w, dict(o.t.a, native="1", stub="", defs=o.t.get("witness_defs", o.t.get("defs"))))
		sub = os.path.join(work, w)
		os.makedirs(sub, exist_ok=True)
		o2 = Outcome(t)
		o2.failed = o.failed
		search(o2, sub)
		o.confirmed, o.replay = o2.confirmed, o2.replay
		o.output += o2.output


def search(o, work, exe=None, seconds=None):
	t = o.t
	exe = exe or native(t, work)
	if not exe:
		return
	seconds = seconds or int(t.get("search", "20"))
	seconds = int(min(seconds, remaining() - 40))
	if seconds < 2:
		return
	save = f"{work}/found.in"
	rc, out, err = run([exe, "search", str(SEED), str(seconds), save], seconds + 30, env=ENV, cwd=work)
	if rc not in (0, -999, -998) and os.path.exists(save):
		# Make sure that it is reproducible
		rc2, out2, err2 = run([exe, "replay", save], 40, env=ENV, cwd=work)
		if rc2 not in (0, -999):
			o.confirmed = True
			o.replay = dict(kind="native search", obligation=(o.failed[0]["property"] if o.failed else o.note),
				inputs=open(save).read().split("\n"), exit=rc2, output=(out2 + err2)[-6000:])
			return
	o.output += f"\nnative search: exit {rc} {out[-300:]}"


def decide(t, targets, base):
	work = os.path.join(base, t.id)
	os.makedirs(work, exist_ok=True)
	o = prove(t, work)
	if t.get("loops") and o.status != "ok":
		# The invariants are about the variables of the loop, and it might have been
		# rewritten. Decide it without them.
		first = o.note or ", ".join(r["property"] + " " + r.get("description", "") for r in o.failed[:4])
		t = targets[t.id.split(".")[0] + "." + t.get("fallback")]
		work = os.path.join(base, t.id)
		os.makedirs(work, exist_ok=True)
		o = prove(t, work)
		o.note = (o.note + f" (loop contract does not hold: {first})").strip()
	elif o.status == "broken":
		# The code does not have the shape any more that the contract is attached to.
		first = o.note + ": " + o.output[-600:]
		if o.mode == "dfcc" and not t.get("replace"):
			o = prove(t, work, mode="assert")
			o.note = (o.note + " (contract could not be attached, checked by assertion: " + first + ")").strip()
		if o.status == "broken" and t.get("fallback"):
			f = targets[t.id.split(".")[0] + "." + t.get("fallback")] if t.get("fallback") in [x.id.split('.')[1] for x in targets.values() if x.unit == t.unit] else targets[t.get("fallback")]
			work2 = os.path.join(base, t.id + "-fallback")
			os.makedirs(work2, exist_ok=True)
			o2 = prove(f, work2)
			if o2.status == "broken" and o2.mode == "dfcc":
				o2 = prove(f, work2, mode="assert")
			o2.note = (o2.note + f" (stands in for {t.id}: {first})").strip()
			o, work = o2, work2
	if o.status == "fail" and o.mode == "dfcc" and not t.get("replace") and all(is_frame(r) for r in o.failed):
		# Only the frame of the function has changed, which no property is about.
		# Decide the postconditions without it.
		frame = ", ".join(r["property"] for r in o.failed[:4])
		o2 = prove(t, work, mode="assert")
		if o2.status == "ok":
			o2.note = f"frame condition no longer holds ({frame}), postconditions checked by assertion"
			o = o2
	if o.status in ("fail", "unwind", "vacuous"):
		confirm(o, work)
	elif o.status in ("undecided", "broken"):
		if t.get("native") == "0":
			witness(o, work)
		else:
			search(o, work, seconds=25)
	o.work = work
	return o


def known_findings():
	found = []
	path = f"{VERIF}/known-findings.txt"
	if os.path.exists(path):
		for line in open(path):
			m = re.match(r"KNOWN-FINDING: property=(\w+) target=(\S+) obligation=(\S+) (.*)", line)
			if m:
				found.append(m.groups())
	return found


def closure(mine, targets):
	"""
	A caller is checked against the contracts of its callees, so that the targets
	which check these callees against their contracts are a part of this property.
	"""
	by_function = {}
	for t in targets.values():
		if not t.get("prop") or (TIER == "quick" and t.get("tier") == "thorough"):
			continue
		for f in [t.get("enforce")] + t.lst("fn"):
			by_function.setdefault(f, []).append(t)
	todo, seen = list(mine), {t.id for t in mine}
	while todo:
		t = todo.pop()
		for f in [x.split(":")[0] for x in t.lst("stub")] + t.lst("replace") + t.lst("deps"):
			for d in by_function.get(f, []):
				if d.id not in seen and not d.get("nodep"):
					seen.add(d.id)
					d.a["dependency"] = "1"
					mine.append(d)
					todo.append(d)
	return mine


def main():
	prop = sys.argv[1]
	targets = load()
	mine = [t for t in targets.values() if prop in t.lst("prop") and (TIER != "quick" or t.get("tier") != "thorough")]
	if len(sys.argv) <= 2:
		mine = closure(mine, targets)
	else:
		mine = [t for t in targets.values() if t.name in sys.argv[2:] or t.id in sys.argv[2:] or t.id.split('.')[1] in sys.argv[2:]]
	if not mine:
		print(f"{prop}: no targets")
		return 2
	base = tempfile.mkdtemp(prefix=f"verif-{prop}-")
	try:
		mine.sort(key=lambda t: -float(t.get("cost", "5")))
		with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
			outcomes = list(ex.map(lambda t: decide(t, targets, base), mine))
		return report(prop, outcomes)
	finally:
		shutil.rmtree(base, ignore_errors=True)


def report(prop, outcomes):
	violations, undecided = [], []
	os.makedirs(f"{VERIF}/evidence", exist_ok=True)
	known = known_findings()
	for o in outcomes:
		t = o.t
		line = f"{t.id}: {o.status} {o.discharged}/{o.obligations} obligations, {o.time:.1f} s, unwind {o.unwind}"
		print(line + (f" [{o.note}]" if o.note else ""), flush=True)
		if o.status == "ok":
			continue
		if o.status in ("fail", "vacuous", "unwind"):
			hits = [k for k in known if k[0] == prop and k[1] == t.id and all(re.fullmatch(k[2], r["property"]) for r in o.failed)]
			if o.status == "fail" and hits:
				print(f"KNOWN-FINDING: property={prop} {hits[0][3]}")
				continue
			unmodelled = o.nobody - NOBODY_OK
			if not o.confirmed and (unmodelled or o.status == "unwind"):
				# The verifier does not know these functions (or how often the loop
				# runs), so that its counterexample says nothing about the code.
				undecided.append(o)
				print(f"  undecided: {o.note} {' '.join(sorted(unmodelled))}")
				continue
			violations.append(o)
		elif o.confirmed:
			violations.append(o)
		else:
			undecided.append(o)
	write_evidence(prop, outcomes, violations, undecided)
	for i, o in enumerate(violations):
		path = f"{VERIF}/evidence/{prop}-replay-{o.t.id}.txt"
		with open(path, "w") as f:
			f.write(f"property: {prop}\nunit: {os.path.relpath(o.t.unit, VERIF)} target: {o.t.name}\n")
			f.write(f"failed obligations:\n")
			for r in o.failed:
				loc = r.get("sourceLocation", {})
				f.write(f"  {r['property']}: {r.get('description')} ({loc.get('file')}:{loc.get('line')} {loc.get('function')}): {r['status']}\n")
			if o.note:
				f.write(f"note: {o.note}\n")
			f.write("commands:\n" + "".join(f"  {c}\n" for c in o.cmds))
			if o.replay:
				f.write(f"\nreplayed on the real code ({o.replay['kind']}), exit {o.replay['exit']}:\n")
				f.write("inputs:\n" + "".join(f"  {x}\n" for x in o.replay["inputs"]))
				f.write("output:\n" + o.replay["output"] + "\n")
			else:
				f.write("\nno failing input found on the real code\n" + o.output + "\n")
		for r in o.failed[:6]:
			print(f"  failed: {r['property']} {r.get('description')}")
		print(f"VIOLATION property={prop} replay={path}" + ("" if o.confirmed else " no-failing-input-found"))
	if violations:
		return 1
	print(f"{prop}: held ({sum(o.discharged for o in outcomes)} obligations discharged in {len(outcomes)} targets, {len(undecided)} undecided, {time.time()-START:.0f} s)")
	return 0


def write_evidence(prop, outcomes, violations, undecided):
	manifest = json.load(open(f"{VERIF}/MANIFEST.json"))
	level = next((c["level"] for c in manifest["checks"] if c["property"] == prop), "proof")
	proof = [o for o in outcomes if not o.t.bounded]
	bounded = [o for o in outcomes if o.t.bounded]
	assumptions = set()
	for o in outcomes:
		for x in o.t.get("assume").split(";"):
			if x.strip():
				assumptions.add(x.strip())
		for x in o.nobody:
			assumptions.add(f"{x}() has no body here: its result is arbitrary and it changes nothing")
		for f in o.t.lst("replace"):
			assumptions.add(f"{f}() is replaced by its contract (which is enforced by its own target)")
		checked = {f for x in outcomes for f in [x.t.get("enforce")] + x.t.lst("fn")}
		for s in o.t.lst("stub"):
			f = s.split(":")[0]
			assumptions.add(f"calls to {f}() are replaced by its contract, {s.split(':')[1]}()" + (", which is checked in this run" if f in checked else ""))
		if o.t.get("malloc") != "fail":
			assumptions.add("memory allocation does not fail (except in targets marked malloc=fail)")
	assumptions.add("errno, the context and the log callback are modelled: the callback has no effects (include/models.h)")
	assumptions.add("little-endian LP64 machine (the one the verifier is configured for); bit-precise machine arithmetic")
	ev = {
		"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level,
		"coverage": {
			"obligations": sum(o.obligations for o in proof),
			"discharged": sum(o.discharged for o in proof),
			"checker_cmd": (proof or outcomes)[0].cmds[-1] if (proof or outcomes)[0].cmds else "",
			"trusted_base": ["cbmc 6.11.0 / goto-cc / goto-instrument --dfcc", "cadical (SAT)", "the specification functions in contracts/*.h and include/verif.h", "the models in include/models.h"],
			"back_end": "cbmc bit-blasting to CaDiCaL",
			"solver_seconds": round(sum(o.time for o in outcomes), 1),
			"functions_under_contract": sorted({f for o in outcomes for f in ([o.t.get("enforce")] if o.t.get("enforce") not in ("", "-") else []) + o.t.lst("fn")}),
			"bounded_obligations": sum(o.obligations for o in bounded),
			"bounded_discharged": sum(o.discharged for o in bounded),
			"targets": [{
				"target": o.t.id, "status": o.status, "kind": "bounded: " + o.t.get("bound", "see unit") if o.t.bounded else "proof",
				"enforce": o.t.get("enforce"), "replace": o.t.lst("replace"), "mode": o.mode,
				"obligations": o.obligations, "discharged": o.discharged, "reachability_checks": o.reach,
				"unwind": o.unwind, "seconds": round(o.time, 1), "note": o.note[:400],
				"commands": o.cmds,
			} for o in outcomes],
		},
		"assumptions": sorted(assumptions),
		"wall_s": round(time.time() - START, 1),
		"violations": len(violations),
	}
	if undecided:
		ev["coverage"]["undecided"] = [f"{o.t.id}: {o.note}" for o in undecided]
	with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
		json.dump(ev, f, indent=1)


if __name__ == "__main__":
	sys.exit(main())
