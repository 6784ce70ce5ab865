// Runs conversions through the Java class: lines "case dir form file" -> one JSON event each.
import dev.brunsli.wrapper.Codec;
import java.io.*;
import java.nio.ByteBuffer;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;
import java.util.zip.*;

public class GlueDriver {
  static String hash(byte[] b) {
    CRC32 c = new CRC32(); c.update(b); Adler32 a = new Adler32(); a.update(b);
    return String.format("%08x%08x_%d", c.getValue(), a.getValue(), b.length);
  }
  static String run(String id, String dir, String form, byte[] x) {
    byte[] in = x.clone(), out = null; boolean enc = dir.equals("enc"), kept = true; String res;
    try {
      if (form.equals("null")) { out = enc ? Codec.encode((byte[]) null) : Codec.decode((byte[]) null); }
      else if (form.equals("bytes")) { out = enc ? Codec.encode(in) : Codec.decode(in); }
      else {
        ByteBuffer b; int lo = 0;
        if (form.equals("heap")) b = ByteBuffer.wrap(in);
        else if (form.equals("slice")) {
          lo = 3 + in.length % 5; b = ByteBuffer.allocateDirect(in.length + 16); for (int i = 0; i < b.capacity(); ++i) b.put(i, (byte) 0xA5);
          b.position(lo); b.put(in); b.position(lo); b.limit(lo + in.length); b = b.slice();
        } else { b = ByteBuffer.allocateDirect(in.length); b.put(in); b.rewind(); }
        if (form.equals("ro")) b = b.asReadOnlyBuffer();
        out = enc ? Codec.encode(b) : Codec.decode(b);
        for (int i = 0; i < in.length; ++i) kept &= b.get(i) == x[i];
      }
      res = out == null ? "nothing" : "ok";
    } catch (IOException e) { res = "fail"; }
    catch (Throwable e) { res = e.getClass().getSimpleName(); }
    kept &= Arrays.equals(in, x);
    return "{\"case\":\"" + id + "\",\"op\":\"conv\",\"route\":\"java\",\"dir\":\"" + dir + "\",\"in\":\"" + hash(x) + "\",\"how\":\"" + form + "\",\"res\":\"" + res + "\",\"out\":\"" + (res.equals("ok") ? hash(out) : "") + "\",\"kept\":" + kept + "}\n";
  }
  public static void main(String[] a) throws Exception {
    System.load(a[0]);
    List<String> lines = Files.readAllLines(Paths.get(a[1])); final OutputStream o = new FileOutputStream(a[2]);
    ExecutorService ex = Executors.newFixedThreadPool(Integer.parseInt(a[3])); List<Future<?>> fs = new ArrayList<>();
    for (final String l : lines) fs.add(ex.submit(() -> {
      try { String[] t = l.split(" "); String e = run(t[0], t[1], t[2], Files.readAllBytes(Paths.get(t[3]))); synchronized (o) { o.write(e.getBytes("UTF-8")); o.flush(); } }
      catch (IOException e) { throw new RuntimeException(e); } }));
    for (Future<?> f : fs) f.get();
    ex.shutdown(); o.close();
  }
}
