module torture

go 1.23.0
