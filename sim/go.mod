module kyvesim

go 1.22.2
