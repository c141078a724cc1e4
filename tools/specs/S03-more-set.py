exec(open('/tmp/specs/common.py').read())
PROP="S03"
EDITS=[("ctypeslib/codegen/codegenerator.py",'''            self.more = collections.OrderedDict()
            self.generate_all(items)
''','''            self.more = {}
            self.generate_all(items)
'''),("ctypeslib/codegen/codegenerator.py",'''            # items |= self.more , but keeping ordering
            _s = set(items)
            [items.append(k) for k in self.more.keys() if k not in _s]
''','''            # items |= self.more
            items.extend(set(self.more).difference(items))
''')]
NEEDS="a pass that leaves two or more records to generate later (pointers to records that were not selected themselves)"
BREAKS="the records needed by others are generated in the iteration order of a set of objects, which depends on their addresses"
DEMO='''#!/bin/bash
# exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
unset CLANG_LIBRARY_PATH
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
( for i in 1 2 3 4 5 6 7 8 9; do echo "struct n$i { int a; };"; done
  echo "struct top {"; for i in 3 1 4 9 2 6 5 8 7; do echo "struct n$i *p$i;"; done; echo "};" ) > "$d/a.h"
for i in 1 2 3 4 5 6 7 8 9 10 11 12; do
  pad=$(head -c $((i * 977)) /dev/zero | tr '\\0' x)
  PADDING=$pad PYTHONHASHSEED=$i /opt/venv/bin/python -W ignore -m ctypeslib.clang2py -s struct_top "$d/a.h" > "$d/out$i" 2>/dev/null || exit 2
  cmp -s "$d/out1" "$d/out$i" || exit 1
done
exit 0
'''
