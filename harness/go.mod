module vmon

go 1.20

require github.com/hymkor/gmnlisp v0.0.0

replace github.com/hymkor/gmnlisp => /repo
