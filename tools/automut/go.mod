module automut

go 1.18
