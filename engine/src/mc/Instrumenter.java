package mc;

import java.io.IOException;
import java.nio.file.*;
import java.util.*;
import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;

/**
 * Rewrites the compiled classes of the code under test so that every access to shared memory, every
 * call on a mutable JDK collection / atomic / synchronizer, every monitor operation and every thread
 * operation first announces itself to the controlled scheduler (class Rt). Nothing in /repo is edited.
 */
public final class Instrumenter implements Opcodes {

  static final String RT = "mc/Rt";
  final Map<String, ClassNode> classes = new LinkedHashMap<>();
  final Set<String> finalFields = new HashSet<>();
  final Map<String, Integer> fieldAccess = new HashMap<>();
  final List<String> sites = new ArrayList<>();

  public static void run(Path in, Path out) throws IOException {
    new Instrumenter().go(in, out);
  }

  void go(Path in, Path out) throws IOException {
    List<Path> files;
    try (var s = Files.walk(in)) {
      files = s.filter(p -> p.toString().endsWith(".class")).sorted().toList();
    }
    List<String> names = new ArrayList<>();
    for (Path p : files) {
      String rel = in.relativize(p).toString();
      names.add(rel.substring(0, rel.length() - 6).replace('/', '.'));
      if (rel.startsWith("vf/") && !rel.startsWith("vf/I")) {
        // driver code shares state only through mc.Mc; it is not instrumented
        Path o = out.resolve(rel);
        Files.createDirectories(o.getParent());
        Files.copy(p, o, StandardCopyOption.REPLACE_EXISTING);
        continue;
      }
      ClassNode cn = new ClassNode();
      new ClassReader(Files.readAllBytes(p)).accept(cn, ClassReader.EXPAND_FRAMES);
      classes.put(cn.name, cn);
      for (FieldNode f : cn.fields) {
        fieldAccess.put(cn.name + "." + f.name, f.access);
        if ((f.access & ACC_FINAL) != 0) {
          finalFields.add(cn.name + "." + f.name);
        }
      }
    }
    for (ClassNode cn : classes.values()) {
      new ClassXform(cn).go();
    }
    for (ClassNode cn : classes.values()) {
      ClassWriter cw = new ClassWriter(ClassWriter.COMPUTE_MAXS);
      cn.accept(cw);
      Path o = out.resolve(cn.name + ".class");
      Files.createDirectories(o.getParent());
      Files.write(o, cw.toByteArray());
    }
    Files.write(out.resolve("sites.txt"), sites);
    Files.write(out.resolve("classes.txt"), names);
  }

  /** Declaring class of a field as seen from owner, within the instrumented classes; null if not ours. */
  String fieldOwner(String owner, String name) {
    for (String c = owner; c != null && classes.containsKey(c); c = classes.get(c).superName) {
      if (fieldAccess.containsKey(c + "." + name)) {
        return c;
      }
      for (String i : classes.get(c).interfaces) {
        if (fieldAccess.containsKey(i + "." + name)) {
          return i;
        }
      }
    }
    return null;
  }

  /** If owner is one of ours but the method is inherited from a JDK class, that JDK class. */
  String methodOwner(String owner, String name, String desc) {
    String c = owner;
    while (c != null && classes.containsKey(c)) {
      for (MethodNode m : classes.get(c).methods) {
        if (m.name.equals(name) && m.desc.equals(desc)) {
          return c;
        }
      }
      c = classes.get(c).superName;
    }
    if (c == null || c.equals("java/lang/Object") && !classes.containsKey(owner)) {
      return owner;
    }
    if (c.equals("java/lang/Object") && !OBJ_SYNC.contains(name)) {
      return owner;
    }
    return c;
  }

  static final Set<String> OBJ_SYNC = Set.of("wait", "notify", "notifyAll");
  static final Map<String, String> NEW_MAP = Map.of(
      "java/util/concurrent/locks/ReentrantLock", "mc/McLock",
      "java/util/concurrent/locks/ReentrantReadWriteLock", "mc/McRWLock",
      "java/util/concurrent/ThreadPoolExecutor", "mc/McTPE",
      "java/util/concurrent/Semaphore", "mc/McSemaphore");

  static final Set<String> SKIP_OWNERS = Set.of("java/util/Objects", "java/util/StringJoiner",
      "java/util/Locale", "java/util/Optional", "java/util/OptionalInt", "java/util/OptionalLong",
      "java/util/Arrays", "java/util/Formatter", "java/util/UUID", "java/util/concurrent/TimeUnit",
      "java/util/concurrent/ThreadFactory", "java/util/concurrent/Callable");

  static boolean isExecutorType(String o) {
    return o.startsWith("java/util/concurrent/") && (o.endsWith("Executor") || o.endsWith(
        "ExecutorService") || o.endsWith("ThreadPoolExecutor"));
  }

  static boolean hookable(String owner) {
    if (owner.equals("java/lang/invoke/VarHandle")) {
      return true;
    }
    if (owner.equals("java/lang/Iterable")) {
      return true;
    }
    if (!owner.startsWith("java/util/") || SKIP_OWNERS.contains(owner)) {
      return false;
    }
    if (owner.startsWith("java/util/function/") || owner.startsWith("java/util/regex/")
        || owner.startsWith("java/util/concurrent/locks/") || isExecutorType(owner)) {
      return false;
    }
    return true;
  }

  /** Static redirections; the receiver becomes the first argument of the same-named method in Rt. */
  String redirect(String owner, String name, String desc, boolean isStatic) {
    switch (owner) {
      case "java/lang/Thread":
        if (Set.of("currentThread", "sleep", "yield", "onSpinWait", "interrupted", "start", "join",
            "interrupt", "isInterrupted", "isAlive", "holdsLock").contains(name)) {
          return "thread_" + name;
        }
        return null;
      case "java/lang/System":
        if (name.equals("currentTimeMillis") || name.equals("nanoTime")) {
          return "sys_" + name;
        }
        if (name.equals("exit")) {
          return "sys_exit";
        }
        return null;
      case "java/time/Instant":
        return isStatic && name.equals("now") && desc.startsWith("()") ? "sys_now" : null;
      case "java/util/concurrent/locks/LockSupport":
        return "ls_" + name;
      case "java/util/concurrent/TimeUnit":
        return name.equals("sleep") ? "tu_sleep" : null;
      case "java/util/concurrent/CountDownLatch":
        return name.equals("await") || name.equals("countDown") ? "cdl_" + name : null;
      case "java/lang/ThreadLocal":
        return !isStatic && Set.of("get", "set", "remove").contains(name) ? "tl_" + name : null;
      default:
    }
    if (OBJ_SYNC.contains(name) && !isStatic && (
        desc.equals("()V") || desc.equals("(J)V") || desc.equals("(JI)V"))) {
      return "obj_" + name;
    }
    if (owner.startsWith("java/util/concurrent/")) {
      if ((owner.endsWith("Queue") || owner.endsWith("Deque")) && !isStatic) {
        if (Set.of("take", "put", "takeFirst", "takeLast", "putFirst", "putLast").contains(name)) {
          return owner.contains("Concurrent") ? null : "bq_" + name;
        }
        if (name.equals("poll") && desc.startsWith("(J") || name.equals("offer") && desc.contains(
            "J")) {
          return "bq_timed_" + name;
        }
      }
      if ((owner.endsWith("Future") || owner.endsWith("FutureTask")) && !isStatic && (
          name.equals("get") || name.equals("join"))) {
        return "fut_" + name;
      }
    }
    return null;
  }

  final class ClassXform {

    final ClassNode cn;
    final boolean itf;
    final Map<String, String> wrappers = new HashMap<>();
    final List<MethodNode> added = new ArrayList<>();
    int seq;

    ClassXform(ClassNode cn) {
      this.cn = cn;
      this.itf = (cn.access & ACC_INTERFACE) != 0;
    }

    int site(String s) {
      sites.add(s.replace('\n', ' '));
      return sites.size() - 1;
    }

    void go() {
      // 1. method handles to hookable JDK methods -> local forwarding methods
      for (MethodNode m : new ArrayList<>(cn.methods)) {
        for (AbstractInsnNode n : m.instructions.toArray()) {
          if (n instanceof InvokeDynamicInsnNode d) {
            for (int i = 0; i < d.bsmArgs.length; i++) {
              if (d.bsmArgs[i] instanceof Handle h && needsForward(h)) {
                d.bsmArgs[i] = forward(h);
              }
            }
          }
        }
      }
      cn.methods.addAll(added);
      added.clear();
      // 2. static initialisers become re-runnable
      if (!itf) {
        for (FieldNode f : cn.fields) {
          if ((f.access & ACC_STATIC) != 0 && f.value == null) {
            f.access &= ~ACC_FINAL;
          }
        }
        MethodNode clinit = cn.methods.stream().filter(m -> m.name.equals("<clinit>")).findFirst()
            .orElse(null);
        InsnList zero = new InsnList();
        for (FieldNode f : cn.fields) {
          if ((f.access & ACC_STATIC) != 0 && (f.access & ACC_FINAL) == 0) {
            zero.add(switch (Type.getType(f.desc).getSort()) {
              case Type.LONG -> new InsnNode(LCONST_0);
              case Type.DOUBLE -> new InsnNode(DCONST_0);
              case Type.FLOAT -> new InsnNode(FCONST_0);
              case Type.OBJECT, Type.ARRAY -> new InsnNode(ACONST_NULL);
              default -> new InsnNode(ICONST_0);
            });
            zero.add(new FieldInsnNode(PUTSTATIC, cn.name, f.name, f.desc));
          }
        }
        if (clinit == null && zero.size() > 0) {
          clinit = new MethodNode(ACC_STATIC, "<clinit>", "()V", null, null);
          clinit.instructions.add(new InsnNode(RETURN));
          cn.methods.add(clinit);
        }
        if (clinit != null) {
          clinit.instructions.insert(zero);
          clinit.name = "mc$clinit";
          clinit.access = ACC_PUBLIC | ACC_STATIC | ACC_SYNTHETIC;
          MethodNode nc = new MethodNode(ACC_STATIC, "<clinit>", "()V", null, null);
          nc.instructions.add(new MethodInsnNode(INVOKESTATIC, cn.name, "mc$clinit", "()V", false));
          nc.instructions.add(new LdcInsnNode(Type.getObjectType(cn.name)));
          nc.instructions.add(
              new MethodInsnNode(INVOKESTATIC, RT, "registerStatics", "(Ljava/lang/Class;)V",
                  false));
          nc.instructions.add(new InsnNode(RETURN));
          cn.methods.add(nc);
        }
      }
      // 3. bodies
      for (MethodNode m : new ArrayList<>(cn.methods)) {
        if ((m.access & (ACC_ABSTRACT | ACC_NATIVE)) == 0 && !m.name.equals("<clinit>")) {
          body(m);
        }
      }
      // 4. synchronized methods
      for (MethodNode m : new ArrayList<>(cn.methods)) {
        if ((m.access & ACC_SYNCHRONIZED) != 0 && (m.access & (ACC_ABSTRACT | ACC_NATIVE)) == 0) {
          synchronizedMethod(m);
        }
      }
      cn.methods.addAll(added);
      // nestmate / access: wrappers live in the same class, so private access keeps working
    }

    boolean needsForward(Handle h) {
      if (h.getTag() == H_NEWINVOKESPECIAL) {
        return NEW_MAP.containsKey(h.getOwner());
      }
      if (h.getTag() < H_INVOKEVIRTUAL) {
        return false;
      }
      boolean st = h.getTag() == H_INVOKESTATIC;
      String o = methodOwner(h.getOwner(), h.getName(), h.getDesc());
      if (classes.containsKey(o)) {
        return false;
      }
      return redirect(o, h.getName(), h.getDesc(), st) != null || !st && hookable(o)
          || o.equals("java/util/concurrent/Executors");
    }

    Handle forward(Handle h) {
      String name = "mc$h$" + (seq++);
      boolean ctor = h.getTag() == H_NEWINVOKESPECIAL;
      boolean st = h.getTag() == H_INVOKESTATIC;
      String desc;
      Type[] args = Type.getArgumentTypes(h.getDesc());
      if (ctor) {
        desc = Type.getMethodDescriptor(Type.getObjectType(h.getOwner()), args);
      } else if (st) {
        desc = h.getDesc();
      } else {
        Type[] a2 = new Type[args.length + 1];
        a2[0] = Type.getObjectType(h.getOwner());
        System.arraycopy(args, 0, a2, 1, args.length);
        desc = Type.getMethodDescriptor(Type.getReturnType(h.getDesc()), a2);
      }
      MethodNode m = new MethodNode(ACC_PRIVATE | ACC_STATIC | ACC_SYNTHETIC, name, desc, null,
          null);
      if (ctor) {
        m.instructions.add(new TypeInsnNode(NEW, h.getOwner()));
        m.instructions.add(new InsnNode(DUP));
      }
      loadArgs(m.instructions, Type.getArgumentTypes(desc));
      int op = ctor ? INVOKESPECIAL : st ? INVOKESTATIC
          : h.getTag() == H_INVOKEINTERFACE ? INVOKEINTERFACE : INVOKEVIRTUAL;
      m.instructions.add(
          new MethodInsnNode(op, h.getOwner(), h.getName(), h.getDesc(), h.isInterface()));
      m.instructions.add(new InsnNode(Type.getReturnType(desc).getOpcode(IRETURN)));
      added.add(m);
      return new Handle(H_INVOKESTATIC, cn.name, name, desc, itf);
    }

    void loadArgs(InsnList il, Type[] args) {
      int v = 0;
      for (Type t : args) {
        il.add(new VarInsnNode(t.getOpcode(ILOAD), v));
        v += t.getSize();
      }
    }

    void body(MethodNode m) {
      boolean init = m.name.equals("<init>");
      int line = 0;
      for (AbstractInsnNode n : m.instructions.toArray()) {
        if (n instanceof LineNumberNode l) {
          line = l.line;
        }
        String where = cn.name.substring(cn.name.lastIndexOf('/') + 1) + "." + m.name + ":" + line;
        if (n instanceof FieldInsnNode f) {
          field(m, f, where, init);
        } else if (n instanceof MethodInsnNode c) {
          call(m, c, where);
        } else if (n instanceof TypeInsnNode t && t.getOpcode() == NEW && NEW_MAP.containsKey(
            t.desc)) {
          t.desc = NEW_MAP.get(t.desc);
        } else if (n.getOpcode() == MONITORENTER || n.getOpcode() == MONITOREXIT) {
          m.instructions.set(n, new MethodInsnNode(INVOKESTATIC, RT,
              n.getOpcode() == MONITORENTER ? "monitorEnter" : "monitorExit",
              "(Ljava/lang/Object;)V", false));
        } else if (n.getOpcode() == AALOAD || n.getOpcode() == IALOAD || n.getOpcode() == LALOAD
            || n.getOpcode() == BALOAD) {
          InsnList il = new InsnList();
          il.add(new InsnNode(DUP2));
          il.add(ldc(site(where + " array read")));
          il.add(new MethodInsnNode(INVOKESTATIC, RT, "arrayRead", "(Ljava/lang/Object;II)V", false));
          m.instructions.insertBefore(n, il);
        } else if (n.getOpcode() == AASTORE || n.getOpcode() == IASTORE
            || n.getOpcode() == BASTORE) {
          String w = "mc$as$" + n.getOpcode();
          String d = n.getOpcode() == AASTORE ? "([Ljava/lang/Object;ILjava/lang/Object;I)V"
              : n.getOpcode() == IASTORE ? "([IIII)V" : "(Ljava/lang/Object;III)V";
          InsnList il = new InsnList();
          il.add(ldc(site(where + " array write")));
          il.add(new MethodInsnNode(INVOKESTATIC, RT,
              n.getOpcode() == AASTORE ? "aastore" : n.getOpcode() == IASTORE ? "iastore"
                  : "bastore", d, false));
          m.instructions.insertBefore(n, il);
          m.instructions.remove(n);
        }
      }
    }

    AbstractInsnNode ldc(int i) {
      return new LdcInsnNode(i);
    }

    void field(MethodNode m, FieldInsnNode f, String where, boolean init) {
      String fo = fieldOwner(f.owner, f.name);
      if (fo == null || finalFields.contains(fo + "." + f.name)) {
        return;
      }
      int acc = fieldAccess.get(fo + "." + f.name);
      if ((acc & ACC_SYNTHETIC) != 0) {
        return;
      }
      boolean vol = (acc & ACC_VOLATILE) != 0;
      int fid = fieldId(fo, f.name);
      int op = f.getOpcode();
      if (init && (op == PUTFIELD || op == GETFIELD)) {
        return;
      }
      if (m.name.equals("mc$clinit")) {
        return;
      }
      int s = site(where + (op == GETFIELD || op == GETSTATIC ? " read " : " write ")
          + fo.substring(fo.lastIndexOf('/') + 1) + "." + f.name + (vol ? " (volatile)" : ""));
      if (op == GETFIELD) {
        InsnList il = new InsnList();
        il.add(new InsnNode(DUP));
        il.add(ldc(fid));
        il.add(ldc(vol ? 1 : 0));
        il.add(ldc(s));
        il.add(new MethodInsnNode(INVOKESTATIC, RT, "getField", "(Ljava/lang/Object;III)V", false));
        m.instructions.insertBefore(f, il);
      } else if (op == GETSTATIC || op == PUTSTATIC) {
        InsnList il = new InsnList();
        il.add(ldc(fid));
        il.add(ldc(vol ? 1 : 0));
        il.add(ldc(op == GETSTATIC ? 0 : 1));
        il.add(ldc(s));
        il.add(new MethodInsnNode(INVOKESTATIC, RT, "staticField", "(IIII)V", false));
        m.instructions.insertBefore(f, il);
      } else {
        String name = "mc$pf$" + (seq++);
        Type t = Type.getType(f.desc);
        String desc = "(" + Type.getObjectType(f.owner).getDescriptor() + f.desc + ")V";
        MethodNode w = new MethodNode(ACC_PRIVATE | ACC_STATIC | ACC_SYNTHETIC, name, desc, null,
            null);
        w.instructions.add(new VarInsnNode(ALOAD, 0));
        w.instructions.add(ldc(fid));
        w.instructions.add(ldc(vol ? 1 : 0));
        w.instructions.add(ldc(s));
        w.instructions.add(
            new MethodInsnNode(INVOKESTATIC, RT, "putField", "(Ljava/lang/Object;III)V", false));
        w.instructions.add(new VarInsnNode(ALOAD, 0));
        w.instructions.add(new VarInsnNode(t.getOpcode(ILOAD), 1));
        w.instructions.add(new FieldInsnNode(PUTFIELD, f.owner, f.name, f.desc));
        w.instructions.add(new InsnNode(RETURN));
        added.add(w);
        m.instructions.set(f, new MethodInsnNode(INVOKESTATIC, cn.name, name, desc, itf));
      }
    }

    void call(MethodNode m, MethodInsnNode c, String where) {
      boolean st = c.getOpcode() == INVOKESTATIC;
      if (c.name.equals("<init>")) {
        if (NEW_MAP.containsKey(c.owner) && !m.name.equals("<init>")) {
          c.owner = NEW_MAP.get(c.owner);
        } else if (NEW_MAP.containsKey(c.owner)) {
          // field initialiser inside a constructor: only rename when it is not a super(...) call
          if (!c.owner.equals(cn.superName)) {
            c.owner = NEW_MAP.get(c.owner);
          }
        }
        return;
      }
      if (c.getOpcode() == INVOKESPECIAL) {
        return;
      }
      if (c.owner.equals("org/apache/logging/log4j/LogManager")) {
        c.owner = "mc/LogShim";
        return;
      }
      if (c.owner.equals("java/util/concurrent/Executors")) {
        c.owner = "mc/McExecutors";
        return;
      }
      if (c.owner.equals("java/util/concurrent/CompletableFuture") && st && c.name.endsWith(
          "Async")) {
        c.owner = "mc/McExecutors";
        c.itf = false;
        return;
      }
      String o = methodOwner(c.owner, c.name, c.desc);
      if (classes.containsKey(o)) {
        return;
      }
      String r = redirect(o, c.name, c.desc, st);
      if (r != null) {
        String d = c.desc;
        if (!st) {
          String recv = r.startsWith("obj_") ? "java/lang/Object" : r.startsWith("thread_")
              ? "java/lang/Thread" : r.startsWith("bq_") ? "java/util/concurrent/BlockingQueue"
              : r.startsWith("fut_") ? "java/util/concurrent/Future"
              : r.startsWith("tl_") ? "java/lang/ThreadLocal" : o;
          d = "(L" + recv + ";" + c.desc.substring(1);
        }
        m.instructions.set(c, new MethodInsnNode(INVOKESTATIC, RT, r, d, false));
        return;
      }
      if (st || !hookable(o)) {
        return;
      }
      String key = c.getOpcode() + c.owner + "." + c.name + c.desc + "@" + where;
      String w = wrappers.get(key);
      Type[] args = Type.getArgumentTypes(c.desc);
      Type ret = Type.getReturnType(c.desc);
      Type[] a2 = new Type[args.length + 1];
      a2[0] = Type.getObjectType(c.owner);
      System.arraycopy(args, 0, a2, 1, args.length);
      String desc = Type.getMethodDescriptor(ret, a2);
      if (w == null) {
        w = "mc$c$" + (seq++);
        wrappers.put(key, w);
        MethodNode wm = new MethodNode(ACC_PRIVATE | ACC_STATIC | ACC_SYNTHETIC, w, desc, null,
            null);
        int s = site(where + " call " + c.owner.substring(c.owner.lastIndexOf('/') + 1) + "."
            + c.name);
        int kind = MethodKinds.of(c.name, c.desc);
        boolean lambda = false;
        for (Type t : args) {
          if (t.getSort() == Type.OBJECT && (t.getInternalName().startsWith("java/util/function/")
              || t.getInternalName().equals("java/util/Comparator"))) {
            lambda = true;
          }
        }
        InsnList il = wm.instructions;
        il.add(new VarInsnNode(ALOAD, 0));
        il.add(ldc(kind | (lambda ? MethodKinds.LAMBDA : 0)));
        il.add(ldc(s));
        il.add(new MethodInsnNode(INVOKESTATIC, RT, "call", "(Ljava/lang/Object;II)V", false));
        loadArgs(il, a2);
        il.add(new MethodInsnNode(c.getOpcode(), c.owner, c.name, c.desc, c.itf));
        if (lambda) {
          il.add(new VarInsnNode(ALOAD, 0));
          il.add(new MethodInsnNode(INVOKESTATIC, RT, "endLambda", "(Ljava/lang/Object;)V", false));
        }
        if (ret.getSort() == Type.OBJECT && MethodKinds.mayAlias(c.name,
            ret.getInternalName())) {
          il.add(new InsnNode(DUP));
          il.add(new VarInsnNode(ALOAD, 0));
          il.add(new MethodInsnNode(INVOKESTATIC, RT, "alias",
              "(Ljava/lang/Object;Ljava/lang/Object;)V", false));
        }
        il.add(new InsnNode(ret.getOpcode(IRETURN)));
        added.add(wm);
      }
      m.instructions.set(c, new MethodInsnNode(INVOKESTATIC, cn.name, w, desc, itf));
    }

    void synchronizedMethod(MethodNode m) {
      boolean st = (m.access & ACC_STATIC) != 0;
      String inner = "mc$sync$" + (seq++) + "$" + m.name;
      MethodNode w = new MethodNode(m.access & ~ACC_SYNCHRONIZED, m.name, m.desc, m.signature,
          m.exceptions == null ? null : m.exceptions.toArray(new String[0]));
      m.name = inner;
      m.access = (m.access & ~(ACC_SYNCHRONIZED | ACC_PUBLIC | ACC_PROTECTED)) | ACC_PRIVATE
          | ACC_SYNTHETIC;
      Type[] args = Type.getArgumentTypes(m.desc);
      List<Object> locals = new ArrayList<>();
      Type[] all = args;
      if (!st) {
        all = new Type[args.length + 1];
        all[0] = Type.getObjectType(cn.name);
        System.arraycopy(args, 0, all, 1, args.length);
      }
      for (Type t : all) {
        locals.add(switch (t.getSort()) {
          case Type.LONG -> LONG;
          case Type.DOUBLE -> DOUBLE;
          case Type.FLOAT -> FLOAT;
          case Type.OBJECT, Type.ARRAY -> t.getInternalName();
          default -> INTEGER;
        });
      }
      LabelNode a = new LabelNode(), b = new LabelNode(), h = new LabelNode();
      InsnList il = w.instructions;
      Runnable lock = () -> {
        if (st) {
          il.add(new LdcInsnNode(Type.getObjectType(cn.name)));
        } else {
          il.add(new VarInsnNode(ALOAD, 0));
        }
      };
      lock.run();
      il.add(new MethodInsnNode(INVOKESTATIC, RT, "monitorEnter", "(Ljava/lang/Object;)V", false));
      il.add(a);
      loadArgs(il, all);
      il.add(new MethodInsnNode(st ? INVOKESTATIC : INVOKESPECIAL, cn.name, inner, m.desc, itf));
      il.add(b);
      lock.run();
      il.add(new MethodInsnNode(INVOKESTATIC, RT, "monitorExit", "(Ljava/lang/Object;)V", false));
      il.add(new InsnNode(Type.getReturnType(m.desc).getOpcode(IRETURN)));
      il.add(h);
      il.add(new FrameNode(F_NEW, locals.size(), locals.toArray(), 1,
          new Object[]{"java/lang/Throwable"}));
      lock.run();
      il.add(new MethodInsnNode(INVOKESTATIC, RT, "monitorExit", "(Ljava/lang/Object;)V", false));
      il.add(new InsnNode(ATHROW));
      w.tryCatchBlocks.add(new TryCatchBlockNode(a, b, h, null));
      cn.methods.add(w);
    }
  }

  final Map<String, Integer> fieldIds = new HashMap<>();

  int fieldId(String owner, String name) {
    return fieldIds.computeIfAbsent(owner + "." + name, k -> fieldIds.size() + 1);
  }
}
