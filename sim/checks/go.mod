module verif.local/checks

go 1.25
