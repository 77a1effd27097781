"""Headers which LUE's build generates when the framework is part of it: configuration and export macros.

generate.py REPO DIRECTORY
"""
import re
import sys
from pathlib import Path

repo, out = Path(sys.argv[1]), Path(sys.argv[2])
source = repo / "source"

ELEMENTS = {
    "UnsignedIntegralElements": ["std::uint8_t", "std::uint32_t", "std::uint64_t"],
    "SignedIntegralElements": ["std::int8_t", "std::int32_t", "std::int64_t"],
    "FloatingPointElements": ["float", "double"],
    "MaterialElements": ["float", "double"],
    "ZoneElements": ["std::uint8_t", "std::uint32_t", "std::uint64_t", "std::int32_t", "std::int64_t"],
    "BooleanElement": "std::uint8_t",
    "CountElement": "std::uint64_t",
    "IDElement": "std::uint64_t",
    "IndexElement": "std::uint64_t",
    "FlowDirectionElement": "std::uint8_t",
    "ranks": ["2"],
}


def write(path, text):
    path = out / path
    path.parent.mkdir(parents=True, exist_ok=True)
    if not path.exists() or path.read_text() != text:
        path.write_text(text)


def evaluate(match):
    expression = match.group(1).strip()
    name, _, how = (part.strip() for part in expression.partition("|"))
    if name.startswith("("):
        values = sum((ELEMENTS[part.strip()] for part in name.strip("()").split("+")), [])
    else:
        values = ELEMENTS[name]
    if how.startswith("join"):
        return ", ".join(values)
    if how.startswith("length"):
        return str(len(values))
    return values


text = (source / "framework/core/include/lue/framework/configure.hpp.in").read_text()
write("lue/framework/configure.hpp", re.sub(r"\{\{(.*?)\}\}", evaluate, text))

text = (source / "shared/include/lue/configure.hpp.in").read_text()
values = {"LUE_BUILD_FRAMEWORK": 1, "LUE_VALIDATE_IDXS": 1, "LUE_ASSERT_CONDITIONS": 1,
          "LUE_FRAMEWORK_ALGORITHM_DEFAULT_POLICIES_ENABLED": 1, "LUE_FRAMEWORK_ALGORITHM_DEFAULT_VALUE_POLICIES_ENABLED": 1}
text = re.sub(r"#cmakedefine01 (\w+)", lambda m: f"#define {m.group(1)} {values.get(m.group(1), 0)}", text)
text = re.sub(r"#cmakedefine (\w+)", lambda m: f"#define {m.group(1)}" if m.group(1) in values else f"/* #undef {m.group(1)} */", text)
write("lue/configure.hpp", text)

# Export macros
for path in (source / "framework").rglob("*.[hc]pp*"):
    content = path.read_text(errors="replace")
    for header in re.findall(r'#include "(lue/framework/[\w/]*export\.hpp)"', content):
        write(header, "#pragma once\n" + "".join(
            f"#define {name}\n" for name in (
                "LUE_FPA_EXPORT", "LUE_PARTITIONED_ARRAY_EXPORT", "LUE_FRAMEWORK_PARTITIONED_ARRAY_EXPORT", "LUE_PARTITIONED_ROUTE_EXPORT",
                "LUE_LOCAL_OPERATION_EXPORT", "LUE_FOCAL_OPERATION_EXPORT", "LUE_GLOBAL_OPERATION_EXPORT", "LUE_ZONAL_OPERATION_EXPORT",
                "LUE_ROUTING_OPERATION_EXPORT", "LUE_MISCELLANEOUS_OPERATION_EXPORT", "LUE_FRAMEWORK_IO_EXPORT", "LUE_FRAMEWORK_CORE_EXPORT")))
    # Templates of headers: the loops only register actions
    if path.name.endswith(".hpp.in") and "include/" in str(path) and path.name != "configure.hpp.in" and "api" not in path.parts:
        body = re.sub(r"\{%.*%\}", "", content, flags=re.S)
        write(str(path).split("include/", 1)[1].removesuffix(".in"), body)
