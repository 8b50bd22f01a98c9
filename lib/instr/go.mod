module instr

go 1.24
