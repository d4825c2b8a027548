---- MODULE ExportInstr ----
EXTENDS WasmInstr, Json
VARIABLE done
Init == done = JsonSerialize("instrs.json", [table |-> Table, control |-> Control])
Next == UNCHANGED done
====
