package mc;

import java.util.Set;

/** Read/write classification of JDK methods by name, used for the dependency relation. */
final class MethodKinds {

  static final int READ = 0;
  static final int WRITE = 1;
  static final int LAMBDA = 2;
  /** memory modes of atomic variables: plain access, no ordering, release only */
  static final int PLAIN = 4;
  static final int OPAQUE = 8;
  static final int RELEASE = 16;

  private static final Set<String> READS = new java.util.HashSet<>(java.util.List.of("get", "getPlain", "getAcquire", "getOpaque",
      "getVolatile", "contains", "containsKey", "containsValue", "containsAll", "isEmpty", "size",
      "length", "peek", "peekFirst", "peekLast", "element", "getFirst", "getLast", "first", "last",
      "iterator", "listIterator", "descendingIterator", "spliterator", "values", "keySet",
      "entrySet", "stream", "parallelStream", "forEach", "getOrDefault", "hasNext", "next",
      "hasPrevious", "previous", "nextIndex", "previousIndex", "indexOf", "lastIndexOf", "toArray",
      "equals", "hashCode", "toString", "getKey", "getValue", "getCount", "intValue", "longValue",
      "doubleValue", "mappingCount", "keys", "elements", "subList", "remainingCapacity",
      "availablePermits", "isDone", "isCancelled", "floor", "ceiling", "higher", "lower", "firstKey",
      "lastKey", "firstEntry", "lastEntry", "headMap", "tailMap", "subMap", "forEachRemaining",
      // stream operations read their source
      "anyMatch", "allMatch", "noneMatch", "filter", "map", "mapToInt", "mapToObj", "flatMap",
      "collect", "count", "findFirst", "findAny", "reduce", "toList", "distinct", "sorted", "limit",
      "skip", "peek", "mapToLong", "boxed", "sum", "max", "min", "forEachOrdered", "sequential",
      "isPresent", "ifPresent"));

  private static final Set<String> ALIAS = new java.util.HashSet<>(java.util.List.of("iterator", "listIterator", "descendingIterator",
      "spliterator", "values", "keySet", "entrySet", "stream", "parallelStream", "subList", "keys",
      "elements", "headMap", "tailMap", "subMap", "descendingMap", "descendingSet",
      "filter", "map", "mapToInt", "mapToObj", "flatMap", "distinct", "sorted", "limit", "skip",
      "peek", "mapToLong", "boxed", "sequential", "next"));

  static int of(String name, String desc) {
    if (desc.startsWith("(J") && name.equals("poll")) {
      return WRITE;
    }
    int mode = name.equals("getPlain") || name.equals("setPlain") ? PLAIN
        : name.equals("getOpaque") || name.equals("setOpaque") || name.equals(
            "weakCompareAndSet") || name.equals("weakCompareAndSetPlain") ? OPAQUE
        : name.equals("lazySet") || name.endsWith("Release") ? RELEASE : 0;
    return mode | (READS.contains(name) ? READ : WRITE);
  }

  static boolean mayAlias(String name, String ret) {
    return ALIAS.contains(name) && (ret.startsWith("java/util/") || name.equals("next"));
  }
}
