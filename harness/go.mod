module nanomuxverif

go 1.18

require github.com/shohruhadham/nanomux v0.0.0

replace github.com/shohruhadham/nanomux => /repo
