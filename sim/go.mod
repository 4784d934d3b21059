module floatsim

go 1.26
