exec(open('/tmp/specs/common.py').read())
PROP="S03"
EDITS=[("ctypeslib/codegen/codegenerator.py",'''        todo = []
        syms = set(self.cfg.symbols)
        for i in self.filtered_items:
            if i.name in syms:
                todo.append(i)
                syms.remove(i.name)
            else:
                log.debug("not generating {}: not a symbol".format(i.name))
        if syms:
''','''        syms = set(self.cfg.symbols)
        items = {}
        for i in self.filtered_items:
            if i.name in syms:
                items.setdefault(i.name, i)
            else:
                log.debug("not generating {}: not a symbol".format(i.name))
        todo = [items[name] for name in syms if name in items]
        syms -= items.keys()
        if syms:
''')]
NEEDS="at least two selected symbols and two processes with different string hash seeds"
BREAKS="the selected declarations are generated in the iteration order of a set of strings, which differs from process to process"
DEMO=RUN
FILES={"demo.py":'''import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, "a.c")
    open(src, "w").write("".join("struct rec%d { int f%d; };\\n" % (i, i) for i in range(8)))
    outs = set()
    for seed in range(6):
        args = [x for i in range(0, 8, 2) for x in ("-s", "struct_rec%d" % i)]
        outs.add(subprocess.check_output([sys.executable, "-W", "ignore", "-m", "ctypeslib.clang2py", src] + args,
                 env=dict(os.environ, PYTHONHASHSEED=str(seed)), stderr=subprocess.DEVNULL))
    sys.exit(0 if len(outs) == 1 else 1)
'''}
