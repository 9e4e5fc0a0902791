// TLC implementation of the operators of HrlePack.tla (same definitions, without set construction).
import java.util.*;
import tlc2.value.impl.*;
public class HrlePack {
  static byte[] P = load();
  static byte[] load() {
    try {
      String f = System.getenv("HRK_PACK");
      return f == null ? new byte[0] : java.nio.file.Files.readAllBytes(java.nio.file.Paths.get(f));
    } catch (Exception e) { throw new RuntimeException(e); }
  }
  static int b(int i) { return P[i] & 255; }
  public static IntValue PackByte(IntValue i) {
    if (i.val < 0 || i.val >= P.length) return IntValue.gen(0);
    return IntValue.gen(b(i.val));
  }
  static BoolValue v(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static boolean in(long a, long n) { return a >= 0 && a + n <= P.length; }
  public static BoolValue PackSame(IntValue a, IntValue c, IntValue n) {
    if (n.val <= 0 || a.val == c.val) return v(true);
    if (!in(a.val, n.val) || !in(c.val, n.val)) return v(false);
    return v(Arrays.equals(P, a.val, a.val + n.val, P, c.val, c.val + n.val));
  }
  public static BoolValue PackRun(IntValue a, IntValue n, tlc2.value.impl.Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    int z = t.elems.length;
    if (n.val <= 0) return v(true);
    if (!in(a.val, n.val)) return v(false);
    int[] y = new int[z];
    for (int i = 0; i < z; i++) y[i] = ((IntValue) t.elems[i]).val;
    for (int k = 0; k < n.val; k++) if (b(a.val + k) != y[k % z]) return v(false);
    return v(true);
  }
  public static IntValue PackFind(IntValue from, IntValue to, tlc2.value.impl.Value S) {
    boolean[] m = new boolean[256];
    SetEnumValue e = (SetEnumValue) S.toSetEnum();
    for (int i = 0; i < e.elems.size(); i++) m[((IntValue) e.elems.elementAt(i)).val] = true;
    for (int k = from.val; k < to.val; k++) if (m[b(k)]) return IntValue.gen(k);
    return to;
  }
  static int rank(int base, int i, int lanes) {
    int x = b(base + i), j = i - lanes, cnt = 0;
    boolean[] seen = new boolean[256];
    for (; j >= 0; j -= lanes) {
      int y = b(base + j);
      if (y == x) return cnt;
      if (!seen[y]) { seen[y] = true; cnt++; }
    }
    int r = x;
    for (int w = x + 1; w < 256; w++) if (seen[w]) r++;
    return r;
  }
  public static IntValue LaneRank(IntValue base, IntValue i, IntValue lanes) { return IntValue.gen(rank(base.val, i.val, lanes.val)); }
  public static BoolValue PackMtf(IntValue in, IntValue out, IntValue n, IntValue lanes) {
    for (int i = 0; i < n.val; i++) if (b(out.val + i) != rank(in.val, i, lanes.val)) return v(false);
    return v(true);
  }
  public static BoolValue PackDelta(IntValue in, IntValue out, IntValue n, IntValue w) {
    int full = n.val - n.val % w.val;
    for (int i = 0; i < n.val; i++) {
      int e = b(in.val + i);
      if (i < full && i >= w.val) e ^= b(in.val + i - w.val);
      if (b(out.val + i) != e) return v(false);
    }
    return v(true);
  }
}
