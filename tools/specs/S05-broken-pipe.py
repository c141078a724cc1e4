exec(open('/tmp/specs/common.py').read())
PROP="S05"
EDITS=[("ctypeslib/clang2py.py",'''    except InvalidTranslationUnitException:
        return 1
    return 0
''','''        status = 0
        if options.output == "-":
            sys.stdout.flush()
    except InvalidTranslationUnitException:
        status = 1
    except BrokenPipeError:
        # the reader (head, less) has seen enough, do not complain at exit
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, sys.stdout.fileno())
        os.close(devnull)
        status = 0
    return status
''')]
NEEDS="standard output is a pipe whose reader goes away before the whole module was written"
BREAKS="a broken pipe on the output is taken for a normal end: exit status 0 although the module was not delivered"
DEMO=RUN
FILES={"demo.py":'''import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, "a.c")
    open(src, "w").write("struct rec { int f; };\\n" )
    r, w = os.pipe()
    os.close(r)
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "ctypeslib.clang2py", src], stdout=w, stderr=subprocess.DEVNULL)
    sys.exit(1 if p.returncode == 0 else 0)
'''}
