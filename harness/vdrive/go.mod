module vdrive

go 1.24
