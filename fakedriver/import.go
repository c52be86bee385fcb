package ddlctl

// The real database drivers are replaced by the one in fakedriver_verif.go.
