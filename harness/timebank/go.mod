module github.com/weedbox/timebank

go 1.18
