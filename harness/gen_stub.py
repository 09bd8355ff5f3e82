#!/usr/bin/env python3
"""Writes a class that implements every pure virtual function of an interface.
usage: gen_stub.py <include path> <file> <namespace> <class> <output>
Every function calls On(<name>), then See(<argument>) for each argument and
Done(), and returns a default value."""
import re
import sys

inc, path, ns, cls, out = sys.argv[1:]
text = re.sub(r"//[^\n]*", "", open(path).read())
m = re.search(r"class\s+%s\b[^;{]*\{" % cls, text)
depth, i = 1, m.end()
while depth:
    depth += {"{": 1, "}": -1}.get(text[i], 0)
    i += 1
body = text[m.end():i]
res = []
for f in re.findall(r"virtual\s+([^;{}]*?)\s*=\s*0\s*;", body):
    f = " ".join(f.split())
    if f.startswith("~"):
        continue
    name = re.search(r"(\w+)\s*\(", f).group(1)
    void = f.startswith("void ")
    depth, args, cur = 0, [], ""
    for c in f[f.index("(", f.index(name)) + 1:f.rindex(")")]:
        depth += {"<": 1, "(": 1, ">": -1, ")": -1}.get(c, 0)
        if c == "," and depth == 0:
            args.append(cur)
            cur = ""
        else:
            cur += c
    args = [re.sub(r"=.*", "", a).strip() for a in args + [cur] if a.strip()]
    see = "".join(" See(%s);" % re.search(r"(\w+)$", a).group(1)
                  for a in args if re.search(r"[\s&*>](\w+)$", a))
    res.append("  %s override { On(\"%s\");%s Done();%s }" % (f, name, see, "" if void else " return {};"))
guard = "VERIF_STUB_%s_H_" % cls.upper()
open(out, "w").write("""#ifndef %s
#define %s
#include <string>
#include "absl/strings/string_view.h"
#include "absl/time/time.h"
#include "fcp/client/stats.h"
#include "%s"
namespace %s {
class Stub%s : public %s {
 public:
  virtual void On(const char* name) {}
  virtual void Text(const std::string& value) {}
  virtual void Number(const char* kind, long long value) {}
  virtual void Done() {}
  void See(absl::string_view v) { Text(std::string(v)); }
  void See(const std::string& v) { Text(v); }
  void See(const ::fcp::client::NetworkStats& v) {
    Number("down", v.bytes_downloaded);
    Number("up", v.bytes_uploaded);
    Number("ms", absl::ToInt64Milliseconds(v.network_duration));
  }
  void See(const ::fcp::client::ExampleStats& v) {
    Number("examples", v.example_count);
    Number("bytes", v.example_size_bytes);
  }
  template <typename T>
  void See(const T&) {}
%s
};
}
#endif
""" % (guard, guard, inc, ns, cls, cls, "\n".join(res)))
