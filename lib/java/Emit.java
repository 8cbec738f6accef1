import java.io.*;
import tlc2.value.impl.*;

/** Evaluates module Emit: appends one line to the file named by the environment variable EMIT. */
public class Emit {
  private static BufferedWriter w;
  public static synchronized Value EmitLine(Value line) throws IOException {
    if (w == null) {
      w = new BufferedWriter(new OutputStreamWriter(new FileOutputStream(System.getenv("EMIT")), "UTF-8"));
      Runtime.getRuntime().addShutdownHook(new Thread(() -> { try { synchronized (Emit.class) { w.flush(); } } catch (IOException e) { } }));
    }
    w.write(((StringValue) line).val.toString());
    w.write('\n');
    return BoolValue.ValTrue;
  }
}
