// Reference definitions: an extraction tool copies the lines after a begin marker line and before the next end marker line.
#include <iostream>
#include <string>
using namespace std;

static bool is (const string &s, const char *a) { return s == a; }

template <class Begin, class End>
static void extract (Begin begin, End end)
{
  string s;
  bool inside = false;
  while (getline (cin, s))
    {
      if (!inside)
        {
          if (begin (s)) inside = true;
        }
      else if (end (s))
        inside = false;
      else
        cout << s << endl;
    }
}

void spec_ecom () { extract ([] (const string &s) { return is (s, "<command>"); }, [] (const string &s) { return is (s, "</command>"); }); }
void spec_edat () { extract ([] (const string &s) { return is (s, "<data>"); }, [] (const string &s) { return is (s, "</data>"); }); }
void spec_elog () { extract ([] (const string &s) { return is (s, "<log>"); }, [] (const string &s) { return is (s, "</log>"); }); }
void spec_emes () { extract ([] (const string &s) { return is (s, "<message>") || is (s, "<mesg>"); }, [] (const string &s) { return is (s, "</message>") || is (s, "</mesg>"); }); }
void spec_emod () { extract ([] (const string &s) { return is (s, "<model>") || is (s, "<job>") || is (s, "<input>"); }, [] (const string &s) { return is (s, "</model>") || is (s, "</job>") || is (s, "</input>"); }); }
