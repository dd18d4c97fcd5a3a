module verifdriver

go 1.21
