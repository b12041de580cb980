package mc;

import java.util.List;

final class Sites {

  static volatile List<String> names = List.of();

  static String name(int s) {
    return s >= 0 && s < names.size() ? names.get(s) : "?";
  }

  static boolean harness(int s) {
    return name(s).startsWith("vf/");
  }
}
