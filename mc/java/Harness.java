import java.io.*;
import java.util.*;

/* Executes the scripts of mc/c/driver.c through the Java classes of build/java: one tab-separated command per line on
 * stdin, one answer line per command on stdout. */
public class Harness {
	static Map<Integer, Suite> S = new HashMap<>();
	static Map<Integer, Observer> O = new HashMap<>();
	static Map<Integer, Problem> P = new HashMap<>();
	static Map<String, Benchmark> B = new HashMap<>();

	static String num(double v) {
		return Double.toHexString(v);
	}

	static String vec(double[] v) {
		if (v == null) return "null";
		StringBuilder b = new StringBuilder();
		for (int i = 0; i < v.length; i++) b.append(i > 0 ? "\t" : "").append(num(v[i]));
		return b.toString();
	}

	static double[] point(String[] t, int from) {
		if (t.length == from + 1 && t[from].equals("null")) return null;
		double[] x = new double[t.length - from];
		for (int i = 0; i < x.length; i++) {
			String s = t[from + i];
			x[i] = s.equals("nan") ? Double.NaN : s.equals("inf") ? Double.POSITIVE_INFINITY : s.equals("-inf") ? Double.NEGATIVE_INFINITY : Double.parseDouble(s);
		}
		return x;
	}

	static String str(String s) {
		return s.equals("<null>") ? null : s;
	}

	static String describe(Problem p) {
		if (p == null) return "null";
		if (!p.toString().equals(p.getId())) return "toString differs from getId";
		return p.getId() + "\t" + p.getIndex() + "\t" + p.getDimension() + "\t" + p.getNumberOfObjectives() + "\t"
				+ p.getNumberOfConstraints() + "\t" + p.getNumberOfIntegerVariables() + "\t" + p.getName();
	}

	static Observer observer(int k) throws Exception {
		if (k < 0) return new Observer("no_observer", "");
		return O.get(k);
	}

	static String run(String[] t) throws Exception {
		int k = t.length > 1 ? Integer.parseInt(t[1]) : -1;
		switch (t[0]) {
		case "S": {
			Suite s = new Suite(str(t[2]), str(t[3]), str(t[4]));
			S.put(k, s);
			if (s.getName() != null && !(s.getName().equals(t[2]) && s.toString().equals(t[2]))) return "name differs";
			return s.getPointer() == 0 ? "null" : "ok";
		}
		case "n": return "" + S.get(k).getNumberOfProblems();
		case "N": {
			String key = t[2] + "/" + t[3];
			if (!B.containsKey(key)) B.put(key, new Benchmark(S.get(Integer.parseInt(t[2])), observer(Integer.parseInt(t[3]))));
			Problem p = B.get(key).getNextProblem();
			P.put(k, p);
			return describe(p);
		}
		case "G": {
			long q = CocoJNI.cocoSuiteGetProblem(S.get(Integer.parseInt(t[2])).getPointer(), Long.parseLong(t[3]));
			Problem p = q == 0 ? null : new Problem(q);
			P.put(k, p);
			return describe(p);
		}
		case "B": {
			Problem p = S.get(Integer.parseInt(t[2])).getProblemByFuncDimInst(Long.parseLong(t[3]), Long.parseLong(t[4]), Long.parseLong(t[5]));
			P.put(k, p);
			return describe(p);
		}
		case "O": {
			Observer o = new Observer(str(t[2]), str(t[3]));
			O.put(k, o);
			if (o.getName() != null && !(o.getName().equals(t[2]) && o.toString().equals(t[2]))) return "name differs";
			return o.getPointer() == 0 ? "null" : "ok";
		}
		case "A": {
			Problem p = new Problem(CocoJNI.cocoProblemAddObserver(P.get(k).getPointer(), observer(Integer.parseInt(t[2])).getPointer()));
			P.put(k, p);
			return describe(p);
		}
		case "R": {
			Problem p = new Problem(CocoJNI.cocoProblemRemoveObserver(P.get(k).getPointer(), observer(Integer.parseInt(t[2])).getPointer()));
			P.put(k, p);
			return describe(p);
		}
		case "E": case "C": {
			double[] x = point(t, 2), c = x == null ? null : x.clone();
			double[] y = t[0].equals("E") ? P.get(k).evaluateFunction(x) : P.get(k).evaluateConstraint(x);
			if (!Arrays.equals(x, c)) return "xmodified";
			return vec(y);
		}
		case "M": {
			double[] x = point(t, 2), c = x == null ? null : x.clone();
			P.get(k).recommendSolution(x);
			return Arrays.equals(x, c) ? "ok" : "xmodified";
		}
		case "T": O.get(k).signalRestart(P.get(Integer.parseInt(t[2]))); return "ok";
		case "f": S.remove(k).finalizeSuite(); return "ok";
		case "o": O.remove(k).finalizeObserver(); return "ok";
		case "x": { /* x suite observer: the end of a benchmark */
			new Benchmark(S.remove(k), O.remove(Integer.parseInt(t[2]))).finalizeBenchmark();
			return "ok";
		}
		case "D": return describe(P.get(k));
		case "Q": { Problem p = P.get(k); return p.getEvaluations() + "\t" + p.getEvaluationsConstraints() + "\t" + (p.isFinalTargetHit() ? 1 : 0); }
		case "q": { Problem p = P.get(k); return p.getEvaluations() + "\t" + p.getEvaluationsConstraints(); }
		case "W": {
			Problem p = P.get(k);
			double[] l = p.getSmallestValuesOfInterest(), u = p.getLargestValuesOfInterest();
			for (int i = 0; i < l.length; i++)
				if (l[i] != p.getSmallestValueOfInterest(i) || u[i] != p.getLargestValueOfInterest(i)) return "bounds differ";
			return vec(l) + "\t" + vec(u);
		}
		case "w": return vec(P.get(k).getLargestFValuesOfInterest());
		case "L": CocoJNI.cocoSetLogLevel(str(t[1])); return "ok";
		}
		return "?";
	}

	static void remove(File f) {
		File[] l = f.listFiles();
		if (l != null) for (File g : l) remove(g);
		f.delete();
	}

	public static void main(String[] a) throws Exception {
		BufferedReader in = new BufferedReader(new InputStreamReader(System.in, "ISO-8859-1"));
		PrintStream out = new PrintStream(new FileOutputStream(a[0]), false, "ISO-8859-1");
		CocoJNI.cocoSetLogLevel("error");
		String line;
		StringBuilder ans = new StringBuilder();
		while ((line = in.readLine()) != null) {
			String[] t = line.split("\t", -1);
			if (t[0].equals(".")) {
				ans.append(".\n");
				out.print(ans);
				out.flush();
				ans.setLength(0);
				continue;
			}
			if (t[0].equals("H") || t[0].equals("h")) {
				S.clear(); O.clear(); P.clear(); B.clear();
				if (t[0].equals("H")) remove(new File("exdata"));
				ans.append("H\n");
				continue;
			}
			String r;
			try {
				r = run(t);
			} catch (Exception e) {
				r = "exc";
				if (System.getenv("HARNESS_TRACE") != null) e.printStackTrace();
			}
			ans.append(r).append("\n");
		}
	}
}
