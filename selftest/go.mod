module github.com/mewmew/float

go 1.21
