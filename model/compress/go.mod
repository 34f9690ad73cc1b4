module github.com/klauspost/compress

go 1.13
