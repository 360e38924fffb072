module verif

go 1.25

require github.com/256dpi/oauth2/v2 v2.0.0

replace github.com/256dpi/oauth2/v2 => /repo
