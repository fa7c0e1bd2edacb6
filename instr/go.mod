module instr

go 1.20
