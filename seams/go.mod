module seams

go 1.23
