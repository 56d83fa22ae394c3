// Batch host: runs the asn1scc entry point many times in one process, one job per stdin line.
// A job line is TAB separated: <working dir> TAB <log file> TAB arg TAB arg ...
// Reply on stdout: "DONE <exit code>".  The compiler's own stdout/stderr go to the log file.
using System;
using System.IO;
using System.Threading;
public static class VHost {
    static int RunOne(string[] args) {
        int rc = -1;
        var t = new Thread(() => {
            try { rc = Program.main(args); }
            catch (Exception e) { Console.Error.WriteLine("VHOST-UNCAUGHT " + e); rc = 99; }
        }, 256 * 1024 * 1024);
        t.Start(); t.Join();
        return rc;
    }
    public static int Main(string[] argv) {
        if (argv.Length > 0) return RunOne(argv);
        var so = Console.Out; var se = Console.Error;
        string line;
        while ((line = Console.In.ReadLine()) != null) {
            var p = line.Split('\t');
            Environment.CurrentDirectory = p[0];
            int rc;
            using (var w = new StreamWriter(p[1])) {
                Console.SetOut(w); Console.SetError(w);
                var a = new string[p.Length - 2];
                Array.Copy(p, 2, a, 0, a.Length);
                rc = RunOne(a);
                w.Flush();
            }
            Console.SetOut(so); Console.SetError(se);
            so.WriteLine("DONE " + rc); so.Flush();
        }
        return 0;
    }
}
