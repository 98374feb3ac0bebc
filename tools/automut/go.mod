module automut

go 1.19
