// Library functions without effect on the verified state, and functions that end the process.
exit "logrus.Fatal*", "(*logrus.Logger).Fatal*", "(*logrus.Entry).Fatal*", "os.Exit", "logrus.Exit"
ignore "logrus.*", "(*logrus.Logger).*", "(*logrus.Entry).*"
ignore "fmt.Print*", "fmt.Fprint*"
ignore "time.*", "(time.*", "(*time.*"

trusted errors.New(s) (e)
  ensures e != nil
end
trusted fmt.Errorf(f, a) (e)
  ensures e != nil
end
// strings.EqualFold compares case-folded texts
spec fold(s: string): string
trusted strings.EqualFold(a, b) (r)
  ensures r <==> fold(a) == fold(b)
end
