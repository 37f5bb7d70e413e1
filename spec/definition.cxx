// Reference definition: reading a model.
#include <algorithm>
#include <fstream>
#include <istream>
#include <map>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <valarray>
#include <vector>
using namespace std;

namespace spec {

typedef unsigned natural;
typedef double real;

struct Part
{
  valarray<real> data;
  istream &get (istream &is, real a, real b) { return is; }
  void mask (real a, real b) {}
};

// a line without its comment; lines with nothing else are left out
istream &significant (istream &is, string &s, char mark)
{
  bool blank = true;
  while (blank and getline (is, s, '\n') and mark != '\0')
    {
      size_t i = 0;
      while (i < s.length () and s[i] != mark)
        {
          blank = isspace (s[i]) and blank;
          ++i;
        }
      s.erase (i);
    }
  return is;
}

struct Definition
{
  vector<Part> sections;
  valarray<natural> isc, nle, nli;
  valarray<real> val, unc, lo, up;
  valarray<bool> msk;
  valarray<natural> ind;
  map<string, natural> section_name_map, profile_name_map;

  // value, bounds, mask and reference of each of n parameters, one in a line
  static istream &parameters (istream &is, vector<real> &val, vector<real> &lo, vector<real> &up, vector<bool> &msk, vector<string> &ref, size_t n)
  {
    vector<real> tv, tl, tu;
    vector<bool> tm;
    vector<string> tr;
    for (size_t i = 0; i < n; ++i)
      {
        real x, a, b;
        bool c;
        string s;
        if (is >> x >> a >> b >> c and getline (is, s, '\n'))
          {
            istringstream rest (s);
            rest >> s;
            if (!rest)
              s.erase ();
            tv.push_back (x);
            tl.push_back (a);
            tu.push_back (b);
            tm.push_back (c);
            tr.push_back (s);
          }
        else
          break;
      }
    if (is)
      {
        val.insert (val.end (), tv.begin (), tv.end ());
        lo.insert (lo.end (), tl.begin (), tl.end ());
        up.insert (up.end (), tu.begin (), tu.end ());
        msk.insert (msk.end (), tm.begin (), tm.end ());
        ref.insert (ref.end (), tr.begin (), tr.end ());
      }
    return is;
  }

  static void refuse (istream &is) { is.setstate (ios_base::badbit | ios_base::failbit); }

  istream &get (istream &is, ostream &os, char mark, char begin, char end, natural count)
  {
    vector<Part> parts;
    vector<natural> isc_, nle_, nli_;
    vector<real> val_, lo_, up_;
    vector<bool> msk_;
    vector<natural> ind_;
    map<string, natural> lines, heads;
    vector<string> ref;
    stringstream all, code;
    string s;

    os << "<!DOCTYPE html>\n<html>\n<!--\n<model>\n";
    while (significant (is, s, '\0'))
      {
        all << s << '\n';
        os << s << '\n';
      }
    os << "</model>\n-->\n</html>\n";
    while (significant (all, s, mark))
      code << s << '\n';

    natural i = 0;
    while (getline (code, s, end))
      if (!code.eof ())
        {
          const size_t j = s.find (begin);
          if (j != string::npos)
            {
              istringstream text (s.substr (j + 1));
              string id, line, file, intervals;
              real a, b;
              natural p;
              if (text >> id >> file >> a >> b >> p and getline (text, intervals))
                {
                  if (heads.find (id) == heads.end ())
                    {
                      heads[id] = parts.size ();
                      ifstream data (file.c_str ());
                      if (data)
                        {
                          Part part;
                          if (part.get (data, a, b))
                            {
                              istringstream holes (intervals);
                              while (holes >> a >> b)
                                part.mask (a, b);
                              parts.push_back (part);
                              isc_.push_back (i);
                              nle_.push_back (p);
                            }
                          else
                            {
                              refuse (is);
                              return is;
                            }
                        }
                      else
                        {
                          refuse (is);
                          return is;
                        }
                    }
                  else
                    {
                      refuse (is);
                      return is;
                    }
                }
              else
                {
                  refuse (is);
                  return is;
                }
              if (!parameters (text, val_, lo_, up_, msk_, ref, 1))
                {
                  refuse (is);
                  return is;
                }
              ++i;
              natural k = 0;
              while (text >> line)
                {
                  if (lines.find (line) == lines.end ())
                    {
                      lines[line] = i;
                      if (!parameters (text, val_, lo_, up_, msk_, ref, count))
                        {
                          refuse (is);
                          return is;
                        }
                      i += count;
                      k += 1;
                    }
                  else
                    {
                      refuse (is);
                      return is;
                    }
                }
              nli_.push_back (k);
            }
          else
            {
              refuse (is);
              return is;
            }
        }
      else if (s.find (begin) != string::npos)
        {
          refuse (is);
          return is;
        }
    if (parts.empty ())
      {
        refuse (is);
        return is;
      }
    if (code.bad () or !code.eof ())
      {
        refuse (is);
        return is;
      }

    for (natural q = 0, k = 0; q < msk_.size (); ++q)
      if (msk_[q] and ref[q].empty ())
        {
          if (lo_[q] > up_[q])
            swap (lo_[q], up_[q]);
          ind_.push_back (k++);
        }
      else
        {
          lo_[q] = 0.0;
          up_[q] = 0.0;
          ind_.push_back (0);
        }

    for (map<string, natural>::const_iterator e = heads.begin (); e != heads.end (); ++e)
      {
        const natural j = isc_[e->second];
        size_t hops = 0;
        while (!ref[j].empty ())
          {
            if (hops++ > heads.size ())
              {
                is.setstate (ios_base::failbit);
                return is;
              }
            if (heads.find (ref[j]) != heads.end ())
              {
                const natural k = isc_[heads[ref[j]]];
                if (j != k)
                  {
                    if (ref[k].empty ())
                      {
                        val_[j] = val_[k];
                        lo_[j] = lo_[k];
                        up_[j] = up_[k];
                        msk_[j] = msk_[k];
                        ind_[j] = ind_[k];
                      }
                    ref[j] = ref[k];
                  }
                else
                  {
                    is.setstate (ios_base::failbit);
                    return is;
                  }
              }
            else
              {
                is.setstate (ios_base::failbit);
                return is;
              }
          }
      }

    for (map<string, natural>::const_iterator e = lines.begin (); e != lines.end (); ++e)
      for (natural j = 0; j < count; ++j)
        {
          const natural k = e->second + j;
          size_t hops = 0;
          while (!ref[k].empty ())
            {
              if (hops++ > lines.size ())
                {
                  is.setstate (ios_base::failbit);
                  return is;
                }
              if (lines.find (ref[k]) != lines.end ())
                {
                  const natural l = lines[ref[k]] + j;
                  if (k != l)
                    {
                      if (ref[l].empty ())
                        {
                          val_[k] = val_[l];
                          lo_[k] = lo_[l];
                          up_[k] = up_[l];
                          msk_[k] = msk_[l];
                          ind_[k] = ind_[l];
                        }
                      ref[k] = ref[l];
                    }
                  else
                    {
                      is.setstate (ios_base::failbit);
                      return is;
                    }
                }
              else
                {
                  is.setstate (ios_base::failbit);
                  return is;
                }
            }
        }

    const natural m = parts.size ();
    const natural n = msk_.size ();
    sections = parts;
    isc.resize (m);
    nle.resize (m);
    nli.resize (m);
    copy (isc_.begin (), isc_.end (), &(isc[0]));
    copy (nle_.begin (), nle_.end (), &(nle[0]));
    copy (nli_.begin (), nli_.end (), &(nli[0]));
    val.resize (n);
    unc.resize (n);
    copy (val_.begin (), val_.end (), &(val[0]));
    lo.resize (n);
    up.resize (n);
    copy (lo_.begin (), lo_.end (), &(lo[0]));
    copy (up_.begin (), up_.end (), &(up[0]));
    msk.resize (n);
    ind.resize (n);
    copy (msk_.begin (), msk_.end (), &(msk[0]));
    copy (ind_.begin (), ind_.end (), &(ind[0]));
    section_name_map = heads;
    profile_name_map = lines;
    is.clear (is.rdstate () & ~ios_base::failbit);
    return is;
  }
};

}
