src=open('/verif/tools/seeds/c26-close.py').read()
ns={}
exec(src,ns)
id="C26-old-run"; property="C26"
needs="a run that has lasted more than five seconds when the signal comes"
breaks="the time granted for the shutdown starts with the run: a later termination ends with an error and cuts the requests in flight off"
pkg=ns['pkg']
edits=[("internal/api/shard/application.go","""	// Wait for interrupt signal to gracefully shutdown the server with
	// a timeout of 5 seconds.
""","""	// Wait for interrupt signal to gracefully shutdown the server with
	// a timeout of 5 seconds.
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
"""),("internal/api/shard/application.go","""	log.Println("Shutdown server ...")

	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
""","""	log.Println("Shutdown server ...")

""")]
test=ns['test'].replace("""	time.Sleep(500 * time.Millisecond)
	syscall""","""	time.Sleep(6 * time.Second)
	syscall""")
