module gvc

go 1.25
