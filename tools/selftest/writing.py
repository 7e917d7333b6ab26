S=[
'''with open("output.txt", "a") as f:
    f.write("%6.2f %3d\\n" % (a[0], i[0]))''',
'''with open("output.txt", "w") as f:
    print("%6.2f" % a[0], i[0], file=f)''',
'''with open("output.txt", "a") as f:
    print(a[0], i[0], sep=" ; ", end="\\n", file=f)''',
'''f = open("output.txt", "a")
try:
    f.write("{:8.3f} {}\\n".format(a[0], i[0]))
finally:
    f.close()''',
'''f = open("output.txt", mode="a", encoding="utf-8", newline="\\n")
f.write(f"{a[0]:8.3f} | {i[0]:>4}")
f.close()''',
'''with open("output.txt", "a") as f:
    f.writelines(["%s " % a[0], "%s\\n" % i[0]])''',
'''with open("output.txt", "a") as f:
    f.write(" ".join("%5.1f" % x for x in (a[0], i[0])))''',
'''with open("output.txt", "a") as f:
    f.write(" ".join(map(str, [a[0], i[0]])))''',
'''with open("output.txt", "a") as f:
    f.write(str(a[0]).rjust(12) + " " + str(i[0]).ljust(5) + "\\n")''',
'''import pathlib
with pathlib.Path("output.txt").open("a") as f:
    f.write("%d" % a[0] + " " + "%i" % i[0])''',
'''from pathlib import Path
Path("output.txt").write_text("%g %d" % (a[0], i[0]))''',
'''import os
with open(os.path.join(".", "output.txt"), "a") as f:
    f.write("%(x)s %(y)s" % {"x": a[0], "y": i[0]})''',
'''import io
s = io.StringIO()
s.write("%5.2f " % a[0])
s.write("%d" % i[0])
open("output.txt", "a").write(s.getvalue())''',
'''lines = []
lines.append("%5.2f" % a[0])
lines.append("%d" % i[0])
with open("output.txt", "a") as f:
    f.write("\\n".join(lines) + "\\n")''',
'''fmt = "%5.2f" + " %d" * 1
with open("output.txt", "a") as f:
    f.write(fmt % (a[0], *[i[0]]))''',
'''fmt = "{0:5.2f} {1:d}"
with open("output.txt", "a") as f:
    f.write(fmt.format(*[a[0], int(i[0])]))''',
'''w = 10
with open("output.txt", "a") as f:
    f.write(f"{a[0]:{w}.2f} {int(i[0]):0{3}d}")''',
'''with open("output.txt", "a") as f:
    f.write("%*.*f %d" % (8, 2, a[0], i[0]))''',
'''with open("output.txt", "a") as f:
    f.write(format(a[0], "8.2f") + " " + format(int(i[0]), "3d"))''',
'''with open("output.txt", "a") as f:
    f.write("%s" % [a[0], i[0]])''',
'''with open("output.txt", "a") as f:
    f.write("%-8.2f|%+d" % (a[0], i[0]))''',
'''with open("output.txt", "a") as f, open("extra.txt", "a") as g:
    f.write("%6.2f %3d\\n" % (a[0], i[0]))
    g.write("x")''',
'''with open("output.txt", "a") as f:
    np.savetxt(f, [[a[0], i[0]]], fmt="%.3f")''',
'''with open("output.txt", "a") as f:
    f.write(np.array2string(np.array([a[0], i[0]])))''',
'''with open("output.txt", "a") as f:
    f.write(str(np.array([a[0], i[0]])))''',
'''with open("output.txt", "a") as f:
    for x in np.array([a[0], i[0]]):
        f.write("%10.4f" % x)
        f.write(" ")''',
'''import sys
old = sys.stdout
f = open("output.txt", "a")
f.write("%5.1f" % float(a[0]) + "%4d" % int(i[0]))
f.flush()
f.close()''',
'''import textwrap
with open("output.txt", "a") as f:
    f.write(textwrap.indent("%5.1f %d" % (a[0], i[0]), "  "))''',
'''from string import Template
with open("output.txt", "a") as f:
    f.write(Template("$x $y").substitute(x=a[0], y=i[0]))''',
'''import contextlib
with open("output.txt", "a") as f, contextlib.redirect_stdout(f):
    print(a[0], i[0])''',
'''def w(f, *v):
    f.write(("%6.2f" * len(v) + "\\n") % tuple(v))
with open("output.txt", "a") as f:
    w(f, a[0], i[0])''',
'''with open("output.txt", "a") as f:
    f.write(repr(a[0]) + " " + repr(int(i[0])))''',
'''with open("output.txt", "a") as f:
    f.write("%5.2f %d".__mod__((a[0], i[0])))''',
'''with open("output.txt", "a") as f:
    f.write("".join(["%5.2f" % x + " " for x in [a[0], i[0]]]))''',
'''with open("output.txt", "ab") as f:
    f.write(("%5.2f %d" % (a[0], i[0])).encode())''',
'''with open("output.txt", "a") as f:
    f.write("%5.2f %d" % tuple(np.array([a[0], i[0]])))''',
'''with open("output.txt", "a") as f:
    f.write("%5.2f %d" % tuple([a[0], i[0]]))''',
'''s = "%5.2f %d" % (a[0], i[0])
with open("output.txt", "a") as f:
    f.write(s.strip() + "\\n" if len(s) > 2 else s)''',
'''s = "{x:5.2f} {y}".format(x=a[0], y=i[0])
with open("output.txt", "a") as f:
    f.write(s.replace("x", "y"))''',
'''s = f"{a[0]:5.2f} {i[0]!s}"
with open("output.txt", "a") as f:
    f.write(s.center(40))''',
'''s = f"{round(a[0], 2)} {i[0]}"
with open("output.txt", "a") as f:
    f.write("=" * 20 + "\\n" + s)''',
]
import json
out="import numpy as np\nimport math\n\n"
for n,f in enumerate(S):
    out+="def t%03d(a, i):\n"%n+"".join("    "+x+"\n" for x in f.split("\n"))+"\n"
compile(out,"x","exec")
open("reliabilityassessment/monte_carlo/shimt.py","w").write(out)
json.dump(S,open("fs.json","w")); print(len(S))
