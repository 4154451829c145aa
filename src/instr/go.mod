module polinstr

go 1.23
