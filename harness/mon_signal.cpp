// Signals and connections against a reference model.
#include "cases.hpp"
#include <RenderGraph/Signal.hpp>
#include <optional>

namespace mon
{
	namespace
	{
		struct SignalCase
		{
			using Fn = std::function< void( int, std::string const & ) >;
			using Sig = crg::Signal< Fn >;
			using Conn = crg::SignalConnection< Sig >;
			struct Slot
			{
				int calls{};          // during the current emission
				bool alive{ true };   // still connected
				bool before{};        // connected before the emission began
				bool goneBefore{};    // disconnected before its call in this emission
			};
			struct Holder
			{
				std::unique_ptr< Conn > conn;
				int slot{ -1 };       // what it is connected to, -1 if nothing
			};

			Case & c;
			std::unique_ptr< Sig > sig;
			std::vector< Holder > holders;
			std::vector< Slot > slots;
			std::vector< int > called;
			int depth{};
			int value{};
			std::string text;

			explicit SignalCase( Case & pc ) : c{ pc }, sig{ std::make_unique< Sig >() } {}

			std::string log;
			void op( std::string const & s ) { log += s + "; "; c.note( std::hash< std::string >{}( s ) ); }

			void onCall( int id, int v, std::string const & t )
			{
				auto & s = slots[size_t( id )];
				if ( !s.alive ) c.viol( "signal", "called-after-disconnect", "a slot was called after its disconnection: " + log );
				if ( v != value || t != text ) c.viol( "signal", "arguments", "a slot was given other arguments: " + log );
				if ( ++s.calls > 1 ) c.viol( "signal", "called-twice", "a slot was called twice by an emission: " + log );
				c.stats.add( "slot calls checked" );
				if ( depth == 1 && c.rng.chance( 35 ) )
				{
					// act on the signal from inside of the slot
					if ( c.rng.chance( 30 ) )
					{
						for ( auto & h : holders ) if ( h.slot == id ) { op( "in " + std::to_string( id ) + " self" ); drop( h ); break; }
					}
					else step( true );
				}
			}

			void drop( Holder & h )
			{
				if ( h.slot >= 0 ) slots[size_t( h.slot )].alive = false;
				h.slot = -1;
				if ( c.rng.chance( 50 ) ) h.conn->disconnect();
				else if ( c.rng.chance( 50 ) ) h.conn = std::make_unique< Conn >();
				else *h.conn = Conn{};
			}

			void add()
			{
				int id = int( slots.size() );
				slots.push_back( {} );
				Holder h;
				h.slot = id;
				h.conn = std::make_unique< Conn >( sig->connect( [this, id]( int v, std::string const & t ){ onCall( id, v, t ); } ) );
				op( "connect " + std::to_string( id ) );
				holders.push_back( std::move( h ) );
			}

			void step( bool inside )
			{
				auto n = c.rng.below( 100 );
				if ( n < 35 || holders.empty() ) add();
				else if ( n < 60 )
				{
					auto k = c.rng.below( uint32_t( holders.size() ) );
					op( "drop " + std::to_string( holders[k].slot ) );
					drop( holders[k] );
				}
				else if ( n < 75 )
				{
					// move construction
					auto k = c.rng.below( uint32_t( holders.size() ) );
					Holder h;
					h.conn = std::make_unique< Conn >( std::move( *holders[k].conn ) );
					h.slot = holders[k].slot;
					holders[k].slot = -1;
					op( "move " + std::to_string( h.slot ) );
					holders.push_back( std::move( h ) );
				}
				else if ( n < 92 )
				{
					// move assignment: what the target was connected to is disconnected
					auto a = c.rng.below( uint32_t( holders.size() ) ), b = c.rng.below( uint32_t( holders.size() ) );
					if ( a == b ) return;
					op( "assign " + std::to_string( holders[a].slot ) + "=" + std::to_string( holders[b].slot ) );
					if ( holders[a].slot >= 0 ) slots[size_t( holders[a].slot )].alive = false;
					*holders[a].conn = std::move( *holders[b].conn );
					holders[a].slot = holders[b].slot;
					holders[b].slot = -1;
				}
				else if ( !inside && holders.size() > 2 )
				{
					auto k = c.rng.below( uint32_t( holders.size() ) );
					op( "destroy " + std::to_string( holders[k].slot ) );
					if ( holders[k].slot >= 0 ) slots[size_t( holders[k].slot )].alive = false;
					holders.erase( holders.begin() + k );
				}
			}

			void emit()
			{
				op( "emit" );
				auto before = slots;
				for ( auto & s : slots ) s.calls = 0;
				value = int( c.rng.below( 1000 ) );
				text = std::string( c.rng.below( 40 ), 'x' );
				depth = 1;
				( *sig )( value, text );
				depth = 0;
				for ( size_t i = 0; i < before.size(); ++i )
					if ( before[i].alive && slots[i].alive )
					{
						c.stats.add( "live slots checked" );
						if ( slots[i].calls != 1 ) c.viol( "signal", "not-called", "a slot connected during a whole emission was called " + std::to_string( slots[i].calls ) + " times: " + log );
					}
					else if ( !before[i].alive && slots[i].calls )
						c.viol( "signal", "called-after-disconnect", "a disconnected slot was called: " + log );
				c.stats.add( "emissions" );
			}

			void run()
			{
				auto n = 4 + c.rng.below( 30 );
				for ( uint32_t k = 0; k < n; ++k )
				{
					if ( c.rng.chance( 35 ) ) emit(); else step( false );
					for ( auto & h : holders )
						if ( h.conn->isValid() != ( h.slot >= 0 ) )
							c.viol( "signal", "validity", std::string( "a connection is " ) + ( h.slot >= 0 ? "not " : "" ) + "valid: " + log );
				}
				if ( c.rng.chance( 60 ) )
				{
					op( "destroy signal" );
					sig.reset();
					for ( auto & h : holders )
					{
						if ( h.conn->isValid() ) c.viol( "signal", "dangling", "a connection is still valid after the destruction of its signal: " + log );
						h.conn->disconnect();
					}
				}
				else emit();
				holders.clear();
				if ( sig ) ( *sig )( 0, std::string{} );
				c.nontrivial = slots.size() > 1;
				c.summary = log;
			}
		};
	}

	void signalCase( Case & c )
	{
		SignalCase s{ c };
		s.run();
		// signals without parameters
		crg::Signal< std::function< void() > > none;
		std::vector< crg::SignalConnection< crg::Signal< std::function< void() > > > > conns;
		std::vector< int > calls( 1 + c.rng.below( 5 ) ), expected( calls.size() );
		for ( size_t i = 0; i < calls.size(); ++i )
			conns.push_back( none.connect( [&calls, i]{ ++calls[i]; } ) );
		for ( int e = 0; e < 3; ++e )
		{
			none();
			for ( size_t i = 0; i < calls.size(); ++i )
			{
				if ( conns[i].isValid() ) ++expected[i];
				if ( c.rng.chance( 30 ) ) conns[i].disconnect();
			}
			c.stats.add( "live slots checked", calls.size() );
			if ( calls != expected ) c.viol( "signal", "no-parameter", "slots without parameters were not called once each" );
		}
	}
}
