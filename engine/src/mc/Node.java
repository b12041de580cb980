package mc;

final class Node {

  boolean data;
  // data choice
  int n;
  int val;
  // scheduling choice
  int chosen;
  long enabled;
  long backtrack;
  long done;
  long sleep;

  static Node data(int n) {
    Node x = new Node();
    x.data = true;
    x.n = n;
    return x;
  }
}
