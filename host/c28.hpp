struct Lim { bool is_signed, is_integer, integral, integral_v, sgn, sgn_v; int digits; long long lo; unsigned long long hi; };
struct Tracked { int v, copies = 0, moves = 0; Tracked( int ); Tracked( Tracked && ); Tracked( Tracked const & ); Tracked & operator=( Tracked && ); Tracked & operator=( Tracked const & ); };
Lim avr_lim( int ); int avr_traits(); unsigned avr_list( int, int, int, int, int * );
void avr_swap( Tracked &, Tracked & ); void avr_swap( int &, int & ); void avr_swap( long long &, long long & ); void avr_swap( double &, double & );
int * avr_copy( int const *, int const *, int * ); void avr_fill( int *, int *, int ); bool avr_equal( int const *, int const *, int const * ); bool avr_equal( int const *, int const *, int const *, bool (*)( int, int ) );
int avr_complex( int, double, double, double, double );
