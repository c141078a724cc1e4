exec(open('/tmp/specs/common.py').read())
PROP="S03"
EDITS=[("ctypeslib/codegen/codegenerator.py",'''        for _ in textwrap.wrap(item.comment, 78):
''','''        # leave room for the comment sign
        for _ in textwrap.wrap(item.comment, shutil.get_terminal_size().columns - 2):
'''),("ctypeslib/codegen/codegenerator.py",'''import pkgutil
import sys
''','''import pkgutil
import shutil
import sys
''')]
NEEDS="comments requested, a comment longer than the width, and COLUMNS set in the environment (or a terminal of another width)"
BREAKS="comments are wrapped at the width of the terminal, taken from the environment variable COLUMNS: the output differs between environments"
DEMO='''#!/bin/bash
# exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
unset CLANG_LIBRARY_PATH
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
echo '/** the words of this comment are many, so many that no line of any usual terminal would hold them all at once */ struct a { int a; };' > "$d/a.h"
run() { /opt/venv/bin/python -W ignore -m ctypeslib.clang2py -c "$d/a.h" 2>/dev/null < /dev/null; }
one=$(COLUMNS=80 run) || exit 2
two=$(COLUMNS=50 run) || exit 2
[ "$one" = "$two" ]
'''
