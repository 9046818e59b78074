module veriftool

go 1.21
