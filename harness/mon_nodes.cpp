// What a graph tells about itself: declarations, merged views, transitions, nodes and dot exports, against a reference model.
#include "cases.hpp"
#include <RenderGraph/Attachment.hpp>
#include <RenderGraph/AttachmentTransition.hpp>
#include <RenderGraph/DotExport.hpp>
#include <RenderGraph/FrameGraph.hpp>
#include <RenderGraph/FramePass.hpp>
#include <RenderGraph/FramePassGroup.hpp>
#include <RenderGraph/GraphContext.hpp>
#include <RenderGraph/GraphNode.hpp>
#include <RenderGraph/ImageData.hpp>
#include <RenderGraph/ImageViewData.hpp>
#include <RenderGraph/ResourceHandler.hpp>
#include <RenderGraph/RunnableGraph.hpp>
#include <RenderGraph/RunnablePass.hpp>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <sstream>

namespace mon
{
	namespace
	{
		//**** A parser for the subset of the dot language which is needed ****

		struct Dot
		{
			struct Node { std::string name; std::map< std::string, std::string > attrs; std::vector< std::string > path; };
			struct Edge { std::string from, to; std::map< std::string, std::string > attrs; std::vector< std::string > path; };
			struct Cluster { std::string name; std::vector< std::string > path; std::string label; };
			struct Graph { std::string name; std::vector< Node > nodes; std::vector< Edge > edges; std::vector< Cluster > clusters; };

			std::vector< Graph > graphs;
			std::string error;

			explicit Dot( std::string const & text ) : s{ text }
			{
				while ( next() && error.empty() )
				{
					if ( tok != "digraph" ) { fail( "digraph expected" ); return; }
					graphs.emplace_back();
					if ( !next() ) { fail( "unexpected end" ); return; }
					if ( tok != "{" ) { graphs.back().name = tok; if ( !next() || tok != "{" ) { fail( "{ expected" ); return; } }
					block();
				}
			}

		private:
			std::string s;
			size_t p{};
			std::string tok;
			bool quoted{};
			std::vector< std::string > path;

			void fail( std::string const & m ) { if ( error.empty() ) error = m + " near '" + tok + "' at " + std::to_string( p ); }
			bool next()
			{
				quoted = false;
				while ( p < s.size() && isspace( (unsigned char)s[p] ) ) ++p;
				if ( p >= s.size() ) { tok = "<end>"; return false; }
				char ch = s[p];
				if ( ch == '"' )
				{
					auto e = s.find( '"', p + 1 );
					if ( e == std::string::npos ) { fail( "unterminated string" ); p = s.size(); return false; }
					tok = s.substr( p + 1, e - p - 1 );
					quoted = true;
					p = e + 1;
					return true;
				}
				if ( ch == '-' && p + 1 < s.size() && s[p + 1] == '>' ) { tok = "->"; p += 2; return true; }
				if ( strchr( "{}[]=;,", ch ) ) { tok = std::string( 1, ch ); ++p; return true; }
				size_t b = p;
				while ( p < s.size() && ( isalnum( (unsigned char)s[p] ) || s[p] == '_' || s[p] == '.' || s[p] == '#' ) ) ++p;
				if ( b == p ) { tok = std::string( 1, ch ); fail( "unexpected character" ); p = s.size(); return false; }
				tok = s.substr( b, p - b );
				return true;
			}
			bool peek( char const * what ) { auto sp = p; auto st = tok; auto sq = quoted; bool r = next() && !quoted && tok == what; p = sp; tok = st; quoted = sq; return r; }
			std::map< std::string, std::string > attributes()
			{
				std::map< std::string, std::string > r;
				if ( !peek( "[" ) ) return r;
				next();
				while ( next() && ( quoted || tok != "]" ) )
				{
					auto k = tok;
					if ( !next() || tok != "=" ) { fail( "= expected" ); return r; }
					if ( !next() ) { fail( "value expected" ); return r; }
					if ( !r.emplace( k, tok ).second ) fail( "attribute given twice" );
					if ( peek( "," ) || peek( ";" ) ) next();
				}
				if ( tok != "]" ) fail( "] expected" );
				return r;
			}
			void block()
			{
				auto & g = graphs.back();
				while ( error.empty() )
				{
					if ( !next() ) { fail( "unexpected end" ); return; }
					if ( !quoted && tok == "}" ) return;
					if ( !quoted && tok == ";" ) continue;
					if ( !quoted && tok == "subgraph" )
					{
						next();
						g.clusters.push_back( { tok, path, {} } );
						path.push_back( tok );
						if ( !next() || tok != "{" ) { fail( "{ expected" ); return; }
						block();
						path.pop_back();
						continue;
					}
					if ( !quoted && ( tok == "digraph" || tok == "{" || tok == "]" || tok == "->" ) ) { fail( "statement expected" ); return; }
					auto a = tok;
					if ( !quoted && peek( "=" ) )
					{
						next();
						next();
						if ( a == "label" )
							for ( auto & c : g.clusters ) if ( !path.empty() && c.name == path.back() ) c.label = tok;
						continue;
					}
					if ( peek( "->" ) )
					{
						next();
						next();
						auto b = tok;
						g.edges.push_back( { a, b, attributes(), path } );
					}
					else
						g.nodes.push_back( { a, attributes(), path } );
				}
			}
		};

		//**** The model ****

		struct NodesCase
		{
			struct Att
			{
				int pass;
				int kind;
				bool in, out, image;
				std::vector< crg::ImageViewId > sources;  // of the view 0
				crg::Buffer buffer{ VkBuffer{}, std::string{} };
				std::string name;    // as given by the library
				bool ignoredIn{}, ignoredOut{};
			};
			struct Part { int att; crg::ImageViewId view; std::string name; };   // one source of an attachment
			struct Group { crg::FramePassGroup * g; int parent; std::string name; };
			struct Pass { crg::FramePass * p; int group; std::string name; std::vector< int > deps; int topo; };

			Case & c;
			Rng & rng;
			Driver drv;
			std::unique_ptr< crg::GraphContext > ctx;
			std::unique_ptr< crg::ResourceHandler > handler;
			std::unique_ptr< crg::FrameGraph > graph;
			std::vector< Group > groups;
			std::vector< Pass > passes;
			std::vector< Att > atts;
			std::vector< crg::ImageId > imgs;
			std::vector< std::vector< crg::ImageViewId > > views;      // per image
			std::set< uint32_t > known;                                // view ids which exist
			std::vector< crg::Buffer > bufs;
			std::string log;

			explicit NodesCase( Case & pc ) : c{ pc }, rng{ pc.rng } {}
			void op( std::string const & s ) { log += s + "; "; c.note( std::hash< std::string >{}( s ) ); }
			void bad( char const * cat, char const * sig, std::string const & m ) { c.viol( cat, sig, m + ": " + log.substr( log.size() > 1500 ? log.size() - 1500 : 0 ) ); }

			static std::string str( VkImageSubresourceRange const & r )
			{
				return "m" + std::to_string( r.baseMipLevel ) + "+" + std::to_string( r.levelCount ) + "l" + std::to_string( r.baseArrayLayer ) + "+" + std::to_string( r.layerCount );
			}
			static std::string str( crg::ImageViewId const & v )
			{
				return "i" + std::to_string( v.data->image.id ) + "t" + std::to_string( int( v.data->info.viewType ) ) + str( v.data->info.subresourceRange );
			}

			//**** declarations ****

			void makeGroups()
			{
				groups.push_back( { &graph->getDefaultGroup(), -1, "graph" } );
				static char const * const names[]{ "A", "B", "C" };
				uint32_t n = rng.below( 6 );
				for ( uint32_t i = 0; i < n; ++i )
				{
					int parent = int( rng.below( uint32_t( groups.size() ) ) );
					std::string name = names[rng.below( 3 )];
					auto & g = parent == 0 && rng.chance( 50 ) ? graph->createPassGroup( name ) : groups[size_t( parent )].g->createPassGroup( name );
					op( "group " + std::to_string( parent ) + "/" + name );
					auto it = std::find_if( groups.begin(), groups.end(), [&]( Group const & x ){ return x.parent == parent && x.name == name; } );
					if ( it != groups.end() )
					{
						if ( it->g != &g ) bad( "decl", "group-twice", "asking for a group again gave another one" );
						continue;
					}
					for ( auto & x : groups )
					{
						if ( x.g == &g ) bad( "decl", "group-shared", "two groups are the same object" );
						if ( x.g->id == g.id ) bad( "decl", "group-id", "two groups have the same id" );
					}
					groups.push_back( { &g, parent, name } );
					if ( g.getName() != name || g.parent != groups[size_t( parent )].g ) bad( "decl", "group-name", "a group does not have the name or parent it was created with" );
				}
				c.stats.add( "groups checked", groups.size() );
				for ( auto & x : groups ) if ( x.g->getFullName() != fullName( int( &x - groups.data() ) ) ) bad( "decl", "group-full-name", "wrong full name " + x.g->getFullName() );
			}
			std::string fullName( int g ) { return groups[size_t( g )].parent < 0 ? groups[size_t( g )].name : fullName( groups[size_t( g )].parent ) + "/" + groups[size_t( g )].name; }

			void makeImages()
			{
				uint32_t n = rng.range( 1, 3 );
				for ( uint32_t i = 0; i < n; ++i )
				{
					bool d3 = rng.chance( 20 ), cube = !d3 && rng.chance( 25 ), d1 = !d3 && !cube && rng.chance( 20 );
					uint32_t mips = rng.range( 1, 4 ), layers = d3 ? 1 : cube ? ( rng.chance( 50 ) ? 6 : 12 ) : rng.range( 1, 4 );
					imgs.push_back( graph->createImage( crg::ImageData{ "img" + std::to_string( i ), VkImageCreateFlags( cube ? VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT : 0 ), d3 ? VK_IMAGE_TYPE_3D : d1 ? VK_IMAGE_TYPE_1D : VK_IMAGE_TYPE_2D
						, VK_FORMAT_R8G8B8A8_UNORM, { 64, d1 ? 1u : 64u, d3 ? 8u : 1u }, VK_IMAGE_USAGE_SAMPLED_BIT, mips, layers } ) );
					views.emplace_back();
					uint32_t nv = rng.range( 1, 5 );
					for ( uint32_t k = 0; k < nv; ++k ) makeView( int( i ) );
				}
				uint32_t nb = rng.range( 1, 3 );
				for ( uint32_t i = 0; i < nb; ++i )
				{
					VkBuffer h = drv.makeBuffer( 256, "b" );
					if ( rng.chance( 30 ) ) bufs.push_back( { crg::VkBufferArray{ h, drv.makeBuffer( 256, "b" ) }, "buf" + std::to_string( i ) } );
					else bufs.push_back( { h, "buf" + std::to_string( i ) } );
				}
			}
			crg::ImageViewId makeView( int i )
			{
				auto & ci = imgs[size_t( i )].data->info;
				VkImageSubresourceRange r{ VK_IMAGE_ASPECT_COLOR_BIT, rng.below( ci.mipLevels ), 1, rng.below( ci.arrayLayers ), 1 };
				if ( rng.chance( 50 ) ) r.levelCount = rng.range( 1, ci.mipLevels - r.baseMipLevel );
				if ( rng.chance( 50 ) ) r.layerCount = rng.range( 1, ci.arrayLayers - r.baseArrayLayer );
				if ( rng.chance( 25 ) ) { r.baseMipLevel = 0; r.levelCount = ci.mipLevels; }
				if ( rng.chance( 25 ) ) { r.baseArrayLayer = 0; r.layerCount = ci.arrayLayers; }
				auto type = ci.imageType == VK_IMAGE_TYPE_3D ? VK_IMAGE_VIEW_TYPE_3D
					: ci.imageType == VK_IMAGE_TYPE_1D ? ( r.layerCount > 1 ? VK_IMAGE_VIEW_TYPE_1D_ARRAY : VK_IMAGE_VIEW_TYPE_1D )
					: r.layerCount > 1 ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D;
				if ( ( ci.flags & VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) && rng.chance( 30 ) )
				{
					bool second = ci.arrayLayers > 6 && rng.chance( 50 );
					r.baseArrayLayer = second ? 6 : 0;
					r.layerCount = 6;
					type = VK_IMAGE_VIEW_TYPE_CUBE;
				}
				// names are not unique on purpose
				auto v = graph->createView( crg::ImageViewData{ "v" + std::to_string( rng.below( 4 ) ), imgs[size_t( i )], 0, type, ci.format, r } );
				known.insert( v.id );
				auto & l = views[size_t( i )];
				if ( std::find( l.begin(), l.end(), v ) == l.end() ) l.push_back( v );
				return v;
			}

			crg::ImageViewId mergedView( crg::FramePass & fp, int i )
			{
				crg::ImageViewIdArray list;
				uint32_t n = rng.range( 1, 4 );
				for ( uint32_t k = 0; k < n; ++k )
				{
					auto v = rng.chance( 70 ) ? rng.pick( views[size_t( i )] ) : makeView( i );
					if ( !v.data->source.empty() || std::find( list.begin(), list.end(), v ) != list.end() ) continue;
					list.push_back( v );
				}
				if ( list.empty() ) return views[size_t( i )][0];
				bool mm = rng.chance( 80 ), ml = rng.chance( 80 );
				std::string what;
				for ( auto & v : list ) what += " " + str( v );
				op( "merge" + std::string( mm ? "M" : "" ) + ( ml ? "L" : "" ) + what );
				auto r = fp.mergeViews( list, mm, ml );
				// the smallest range holding them all, or the first level or layer
				auto e = list[0].data->info;
				uint32_t m0 = ~0u, m1 = 0, l0 = ~0u, l1 = 0;
				for ( auto & v : list )
				{
					auto & s = v.data->info.subresourceRange;
					m0 = std::min( m0, s.baseMipLevel );
					m1 = std::max( m1, s.baseMipLevel + s.levelCount );
					l0 = std::min( l0, s.baseArrayLayer );
					l1 = std::max( l1, s.baseArrayLayer + s.layerCount );
				}
				if ( list.size() > 1 )
				{
					e.subresourceRange.baseMipLevel = m0;
					e.subresourceRange.levelCount = mm ? m1 - m0 : 1;
					e.subresourceRange.baseArrayLayer = l0;
					e.subresourceRange.layerCount = ml ? l1 - l0 : 1;
				}
				auto & s = e.subresourceRange;
				if ( s.layerCount > 1 && e.viewType == VK_IMAGE_VIEW_TYPE_2D )
				{
					bool cube = ( imgs[size_t( i )].data->info.flags & VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) && s.baseArrayLayer == 0 && s.layerCount % 6 == 0;
					e.viewType = !cube ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : s.layerCount > 6 ? VK_IMAGE_VIEW_TYPE_CUBE_ARRAY : VK_IMAGE_VIEW_TYPE_CUBE;
				}
				if ( e.viewType == VK_IMAGE_VIEW_TYPE_CUBE && s.layerCount == 12 )
				{
					e.viewType = VK_IMAGE_VIEW_TYPE_CUBE_ARRAY;
					c.stats.add( "merged cubes" );
				}
				// what is left of a cube which is cut is not specified
				bool cut = e.viewType == VK_IMAGE_VIEW_TYPE_CUBE && s.layerCount != 6;
				if ( s.layerCount > 1 && e.viewType == VK_IMAGE_VIEW_TYPE_1D ) e.viewType = VK_IMAGE_VIEW_TYPE_1D_ARRAY;
				auto & g = r.data->info;
				if ( r.data->image != imgs[size_t( i )] || g.format != e.format || g.flags != e.flags ) bad( "merge", "image", "the merged view is not one of the same image and format" );
				if ( memcmp( &g.subresourceRange, &s, sizeof( s ) ) ) bad( "merge", "range", "the merged view covers " + str( g.subresourceRange ) + " instead of " + str( s ) );
				else if ( g.viewType != e.viewType && !cut ) bad( "merge", "type", "the merged view has type " + std::to_string( g.viewType ) + " instead of " + std::to_string( e.viewType ) );
				if ( known.insert( r.id ).second )
				{
					if ( r.data->source != list ) bad( "merge", "sources", "the merged view does not list the views it is made of" );
					c.stats.add( "merged view sources checked" );
				}
				c.stats.add( "merged views checked" );
				return r;
			}

			void makePasses()
			{
				static char const * const names[]{ "p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7" };
				uint32_t n = rng.chance( 30 ) ? rng.range( 8, 16 ) : rng.range( 1, 9 );
				std::vector< int > topo;
				for ( uint32_t i = 0; i < n; ++i ) topo.push_back( int( i ) );
				rng.shuffle( topo );
				for ( uint32_t i = 0; i < n; ++i )
				{
					int g = int( rng.below( uint32_t( groups.size() ) ) );
					std::string name = names[rng.below( 8 )];
					auto & grp = *groups[size_t( g )].g;
					bool dup = false;
					for ( auto & p : passes ) dup = dup || ( p.group == g && p.name == name );
					if ( grp.hasPass( name ) != dup ) bad( "decl", "has-pass", "hasPass is wrong about " + name );
					auto creator = []( crg::FramePass const & fp, crg::GraphContext & pctx, crg::RunnableGraph & rg ) -> crg::RunnablePassPtr
					{
						return std::make_unique< crg::RunnablePass >( fp, pctx, rg, crg::RunnablePass::Callbacks{ []( uint32_t ){}
							, crg::RunnablePass::GetPipelineStateCallback( []{ return crg::getPipelineState( VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ); } ) } );
					};
					crg::FramePass * p{};
					try
					{
						p = g == 0 && rng.chance( 50 ) ? &graph->createPass( name, creator ) : &grp.createPass( name, creator );
					}
					catch ( std::exception const & )
					{
						if ( !dup ) bad( "decl", "pass-refused", "a pass whose name is new in its group was refused" );
					}
					op( "pass " + std::to_string( g ) + "/" + name );
					if ( dup )
					{
						if ( p ) { bad( "decl", "pass-twice", "two passes of the same group have the same name" ); }
						c.stats.add( "duplicates refused" );
						if ( p ) return;
						continue;
					}
					if ( !p ) continue;
					for ( auto & q : passes )
					{
						if ( q.p == p ) bad( "decl", "pass-shared", "two passes are the same object" );
						if ( q.p->id == p->id ) bad( "decl", "pass-id", "two passes of a graph have the same id" );
					}
					if ( p->getName() != name || &p->group != &grp || &p->graph != graph.get() ) bad( "decl", "pass-name", "a pass does not have the name or group it was created with" );
					if ( p->getFullName() != fullName( g ) + "/" + name || p->getGroupName() != groups[size_t( g )].name + "/" + name ) bad( "decl", "pass-full-name", "wrong names " + p->getFullName() + ", " + p->getGroupName() );
					passes.push_back( { p, g, name, {}, topo[i] } );
				}
				c.stats.add( "passes checked", passes.size() );
				crg::FramePassArray list;
				graph->getDefaultGroup().listPasses( list );
				std::vector< crg::FramePass const * > a( list.begin(), list.end() ), b;
				for ( auto & p : passes ) b.push_back( p.p );
				std::sort( a.begin(), a.end() );
				std::sort( b.begin(), b.end() );
				if ( a != b ) bad( "decl", "list", "the list of passes of the graph is not the passes which were created" );
				// dependencies go from higher to lower topological positions
				uint32_t density = rng.range( 5, 90 );
				for ( auto & p : passes )
				{
					std::vector< int > deps;
					for ( size_t k = 0; k < passes.size(); ++k ) if ( passes[k].topo < p.topo && rng.chance( density ) ) deps.push_back( int( k ) );
					rng.shuffle( deps );
					p.deps = deps;
				}
			}

			void applyDeps()
			{
				for ( auto & p : passes )
				{
					std::string s;
					for ( int d : p.deps ) { p.p->addDependency( *passes[size_t( d )].p ); s += " " + passes[size_t( d )].name; }
					if ( !s.empty() ) op( p.name + " after" + s );
				}
				for ( auto & p : passes )
					for ( size_t k = 0; k < passes.size(); ++k )
					{
						bool e = std::find( p.deps.begin(), p.deps.end(), int( k ) ) != p.deps.end();
						if ( p.p->dependsOn( *passes[k].p ) != e ) bad( "decl", "depends", "dependsOn does not tell the declared dependencies" );
					}
			}

			enum K { Spl, Imp, SI, SO, SC, SIO, TI, TO, TIO, CI, CO, CIO, Views, U = Views, BSI, BSO, BSC, BSIO, BTI, BTO, BTIO, BImp, End };

			void addAtt( int pi )
			{
				auto & fp = *passes[size_t( pi )].p;
				Att a{};
				a.pass = pi;
				a.image = rng.chance( 70 );
				a.kind = a.image ? int( rng.below( Views ) ) : int( U + rng.below( End - U ) );
				bool flip = rng.chance( 50 );
				switch ( a.kind )
				{
				case Spl: case Imp: case SI: case TI: case CI: case U: case BSI: case BTI: case BImp: a.in = true; break;
				case SO: case SC: case TO: case CO: case BSO: case BSC: case BTO: a.out = true; break;
				default: a.in = a.out = true; break;
				}
				( void )flip;
				if ( a.image )
				{
					int i = int( rng.below( uint32_t( imgs.size() ) ) );
					auto v = rng.chance( 25 ) ? mergedView( fp, i ) : rng.pick( views[size_t( i )] );
					for ( auto & o : atts )
						if ( o.pass == pi && o.kind == a.kind )
							for ( auto & s : o.sources ) if ( s.data->image == v.data->image ) return;   // attachments of a pass differ
					if ( v.data->source.empty() ) a.sources = { v };
					else a.sources = v.data->source;
					uint32_t b = uint32_t( fp.images.size() );
					crg::ImageViewIdArray arr{ v };
					if ( rng.chance( 15 ) )
					{
						arr.push_back( rng.pick( views[size_t( i )] ) );  // of another index
					}
					switch ( a.kind )
					{
					case Spl: fp.addSampledView( arr, b ); break;
					case Imp: fp.addImplicitColourView( arr, VK_IMAGE_LAYOUT_GENERAL ); break;
					case SI: fp.addInputStorageView( arr, b ); break;
					case SO: fp.addOutputStorageView( arr, b ); break;
					case SC: fp.addClearableOutputStorageView( arr, b ); break;
					case SIO: fp.addInOutStorageView( arr, b ); break;
					case TI: fp.addTransferInputView( arr ); break;
					case TO: fp.addTransferOutputView( arr ); break;
					case TIO: fp.addTransferInOutView( arr ); break;
					case CI: fp.addInputColourView( arr ); break;
					case CO: fp.addOutputColourView( arr ); break;
					default: fp.addInOutColourView( arr ); break;
					}
					op( passes[size_t( pi )].name + " k" + std::to_string( a.kind ) + " " + str( v ) );
					if ( fp.images.size() != b + 1 ) { bad( "decl", "attachments", "declaring an image did not add one attachment" ); return; }
					check( a, fp.images.back(), arr, fp );
				}
				else
				{
					auto & buf = rng.pick( bufs );
					for ( auto & o : atts ) if ( o.pass == pi && o.buffer == buf && ( o.kind == a.kind || ( o.out && a.out && !o.in && !a.in ) ) ) return;
					a.buffer = buf;
					uint32_t b = uint32_t( fp.buffers.size() );
					VkDeviceSize off = rng.below( 4 ) * 64;
					switch ( a.kind )
					{
					case U: fp.addUniformBuffer( buf, b, off, 64 ); break;
					case BSI: fp.addInputStorageBuffer( buf, b, off, 64 ); break;
					case BSO: fp.addOutputStorageBuffer( buf, b, off, 64 ); break;
					case BSC: fp.addClearableOutputStorageBuffer( buf, b, off, 64 ); break;
					case BSIO: fp.addInOutStorageBuffer( buf, b, off, 64 ); break;
					case BTI: fp.addTransferInputBuffer( buf, off, 64 ); break;
					case BTO: fp.addTransferOutputBuffer( buf, off, 64 ); break;
					case BTIO: fp.addTransferInOutBuffer( buf, off, 64 ); break;
					default: fp.addImplicitBuffer( buf, off, 64, crg::AccessState{ VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT } ); break;
					}
					op( passes[size_t( pi )].name + " k" + std::to_string( a.kind ) + " " + buf.name );
					if ( fp.buffers.size() != b + 1 ) { bad( "decl", "attachments", "declaring a buffer did not add one attachment" ); return; }
					auto & at = fp.buffers.back();
					a.name = at.name;
					if ( !at.isBuffer() || at.isImage() || at.pass != &fp || at.isInput() != a.in || at.isOutput() != a.out || at.getBufferCount() != buf.getCount()
						|| at.getBufferRange().offset != off || at.getBufferRange().size != 64
						|| at.isClearableBuffer() != ( a.kind == BSC ) || at.isUniformBuffer() != ( a.kind == U )
						|| at.isStorageBuffer() != ( a.kind == BSI || a.kind == BSO || a.kind == BSC || a.kind == BSIO )
						|| at.isTransferBuffer() != ( a.kind == BTI || a.kind == BTO || a.kind == BTIO ) || at.isTransitionBuffer() != ( a.kind == BImp )
						|| at.isTransferInputBuffer() != ( a.kind == BTI || a.kind == BTIO ) || at.isTransferOutputBuffer() != ( a.kind == BTO || a.kind == BTIO )
						|| at.isInOut() != ( a.in && a.out ) || at.isBufferView() )
						bad( "decl", "buffer-attachment", "a buffer attachment is not described as it was declared" );
					for ( uint32_t k = 0; k < buf.getCount(); ++k )
						if ( at.buffer( k ) != buf.buffer( k ) ) bad( "decl", "buffer-handle", "a buffer attachment does not hold the given buffer" );
				}
				c.stats.add( "attachments checked" );
				atts.push_back( a );
			}

			void check( Att & a, crg::Attachment const & at, crg::ImageViewIdArray const & arr, crg::FramePass & fp )
			{
				a.name = at.name;
				bool colour = a.kind == CI || a.kind == CO || a.kind == CIO;
				bool storage = a.kind == SI || a.kind == SO || a.kind == SC || a.kind == SIO, transfer = a.kind == TI || a.kind == TO || a.kind == TIO;
				if ( !at.isImage() || at.isBuffer() || at.pass != &fp || at.isInput() != a.in || at.isOutput() != a.out || at.isInOut() != ( a.in && a.out )
					|| at.isSampledView() != ( a.kind == Spl ) || at.isTransitionView() != ( a.kind == Imp ) || at.isStorageView() != storage || at.isTransferView() != transfer
					|| at.isColourAttach() != colour || at.isDepthAttach() || at.isStencilAttach() || at.isClearableImage() != ( a.kind == SC )
					|| at.isColourInputAttach() != ( a.kind == CI || a.kind == CIO ) || at.isColourOutputAttach() != ( a.kind == CO || a.kind == CIO ) || at.isColourInOutAttach() != ( a.kind == CIO )
					|| at.isStorageInputView() != ( a.kind == SI || a.kind == SIO ) || at.isStorageOutputView() != ( a.kind == SO || a.kind == SC || a.kind == SIO )
					|| at.isTransferInputView() != ( a.kind == TI || a.kind == TIO ) || at.isTransferOutputView() != ( a.kind == TO || a.kind == TIO ) )
					bad( "decl", "image-attachment", "an image attachment is not described as it was declared" );
				if ( at.getViewCount() != arr.size() ) bad( "decl", "view-count", "an image attachment does not hold the given views" );
				else
					for ( uint32_t k = 0; k < arr.size(); ++k ) if ( at.view( k ) != arr[k] ) bad( "decl", "view", "an image attachment does not hold the given view" );
			}

			//**** the flows of data ****

			static VkImageSubresourceRange virt( crg::ImageViewId const & v )
			{
				auto r = v.data->info.subresourceRange;
				if ( v.data->info.viewType == VK_IMAGE_VIEW_TYPE_3D ) { r.baseArrayLayer = 0; r.layerCount = std::max( 1u, v.data->image.data->info.extent.depth >> r.baseMipLevel ); }
				return r;
			}
			static bool overlap( crg::ImageViewId const & a, crg::ImageViewId const & b )
			{
				if ( a.data->image.id != b.data->image.id ) return false;
				auto x = virt( a ), y = virt( b );
				return x.baseMipLevel < y.baseMipLevel + y.levelCount && y.baseMipLevel < x.baseMipLevel + x.levelCount
					&& x.baseArrayLayer < y.baseArrayLayer + y.layerCount && y.baseArrayLayer < x.baseArrayLayer + x.layerCount;
			}
			static bool sameRange( crg::ImageViewId const & a, crg::ImageViewId const & b )
			{
				if ( a.data->image.id != b.data->image.id || a.data->info.format != b.data->info.format ) return false;
				auto x = virt( a ), y = virt( b );
				return x.baseMipLevel == y.baseMipLevel && x.levelCount == y.levelCount && x.baseArrayLayer == y.baseArrayLayer && x.layerCount == y.layerCount;
			}
			static bool oneLevelOf( crg::ImageViewId const & sub, crg::ImageViewId const & all )
			{
				auto & s = sub.data->info.subresourceRange;
				auto & m = all.data->info.subresourceRange;
				return sub.data->image.id == all.data->image.id && s.levelCount == 1 && s.baseMipLevel >= m.baseMipLevel && s.baseMipLevel < m.baseMipLevel + m.levelCount;
			}

			bool uses( int pass, bool asOutput, crg::ImageViewId const & v )
			{
				for ( auto & a : atts )
					if ( a.pass == pass && a.image && ( asOutput ? a.out : a.in ) )
						for ( auto & s : a.sources ) if ( sameRange( s, v ) ) return true;
				return false;
			}
			bool uses( int pass, bool asOutput, crg::Buffer const & b )
			{
				for ( auto & a : atts ) if ( a.pass == pass && !a.image && ( asOutput ? a.out : a.in ) && a.buffer.buffer() == b.buffer() ) return true;
				return false;
			}
			// does pass depend on src for the data, directly or through passes which don't use it?
			template< typename D > bool flows( int src, int pass, D const & d )
			{
				for ( int k : passes[size_t( pass )].deps )
				{
					if ( uses( k, true, d ) ) { if ( k == src ) return true; }
					else if ( !uses( k, false, d ) && flows( src, k, d ) ) return true;
				}
				return false;
			}

			std::vector< Part > parts( bool output )
			{
				std::vector< Part > r;
				for ( size_t i = 0; i < atts.size(); ++i )
				{
					auto & a = atts[i];
					if ( !a.image || !( output ? a.out : a.in ) ) continue;
					auto & fp = *passes[size_t( a.pass )].p;
					bool merged = false;
					for ( auto & at : fp.images ) if ( at.name == a.name ) merged = !at.view().data->source.empty();
					for ( auto & s : a.sources ) r.push_back( { int( i ), s, merged ? a.name + s.data->name : a.name } );
				}
				return r;
			}

			int passOf( crg::FramePass const * p ) { for ( size_t i = 0; i < passes.size(); ++i ) if ( passes[i].p == p ) return int( i ); return -2; }

			using Key = std::tuple< int, uint32_t, std::string, int, uint32_t, std::string >;  // pass, view and name of both sides
			static std::string str( Key const & k )
			{
				auto & [a, b, n, x, y, m] = k;
				return std::to_string( a ) + ":" + std::to_string( b ) + "(" + n + ") -> " + std::to_string( x ) + ":" + std::to_string( y ) + "(" + m + ")";
			}
			std::set< Key > flowsV, flowsB;
			static constexpr int Outside = -1;

			void checkTransitions( crg::AttachmentTransitions const & t )
			{
				std::set< Key > ev, eb;
				auto outs = parts( true ), ins = parts( false );
				for ( auto & o : outs )
				{
					bool readAsIs = false;
					auto & oa = atts[size_t( o.att )];
					for ( auto & i : ins )
					{
						if ( i.view == o.view ) readAsIs = true;
						auto & ia = atts[size_t( i.att )];
						if ( oa.pass == ia.pass || !overlap( o.view, i.view ) ) continue;
						if ( flows( oa.pass, ia.pass, oneLevelOf( i.view, o.view ) ? o.view : i.view ) ) ev.insert( { oa.pass, o.view.id, o.name, ia.pass, i.view.id, i.name } );
					}
					if ( !readAsIs ) ev.insert( { oa.pass, o.view.id, o.name, Outside, o.view.id, "" } );
				}
				for ( auto & i : ins )
				{
					bool written = false;
					for ( auto & o : outs ) written = written || overlap( o.view, i.view );
					if ( !written ) ev.insert( { Outside, i.view.id, "", atts[size_t( i.att )].pass, i.view.id, i.name } );
				}
				for ( auto & o : atts )
				{
					if ( o.image || !o.out ) continue;
					bool read = false;
					for ( auto & i : atts )
					{
						if ( i.image || !i.in || i.buffer.buffer() != o.buffer.buffer() ) continue;
						read = true;
						if ( i.pass != o.pass && flows( o.pass, i.pass, i.buffer ) ) eb.insert( { o.pass, 0, o.name, i.pass, 0, i.name } );
					}
					if ( !read ) eb.insert( { o.pass, 0, o.name, Outside, 0, "" } );
				}
				for ( auto & i : atts )
				{
					if ( i.image || !i.in ) continue;
					bool written = false;
					for ( auto & o : atts ) written = written || ( !o.image && o.out && i.buffer.buffer() == o.buffer.buffer() );
					if ( !written ) eb.insert( { Outside, 0, "", i.pass, 0, i.name } );
				}
				std::set< Key > gv, gb;
				std::set< std::pair< Key, std::string > > once;
				for ( auto & x : t.viewTransitions )
				{
					int o = x.outputAttach.pass ? passOf( x.outputAttach.pass ) : Outside, i = x.inputAttach.pass ? passOf( x.inputAttach.pass ) : Outside;
					if ( o == -2 || i == -2 ) { bad( "flow", "pass", "a transition names a pass which is not one of the graph" ); continue; }
					Key k{ o, x.outputAttach.view().id, x.outputAttach.name, i, x.inputAttach.view().id, x.inputAttach.name };
					gv.insert( k );
					if ( !overlap( x.data, x.outputAttach.view() ) || !overlap( x.data, x.inputAttach.view() ) ) bad( "flow", "data", "the view of a transition is not the one of its attachments: " + str( k ) );
					if ( !once.emplace( k, str( x.data ) ).second ) bad( "flow", "twice", "a transition is reported twice: " + str( k ) );
				}
				once.clear();
				for ( auto & x : t.bufferTransitions )
				{
					int o = x.outputAttach.pass ? passOf( x.outputAttach.pass ) : Outside, i = x.inputAttach.pass ? passOf( x.inputAttach.pass ) : Outside;
					if ( o == -2 || i == -2 ) { bad( "flow", "pass", "a transition names a pass which is not one of the graph" ); continue; }
					Key k{ o, 0, x.outputAttach.name, i, 0, x.inputAttach.name };
					gb.insert( k );
					if ( ( o >= 0 && x.data.buffer() != x.outputAttach.buffer() ) || ( i >= 0 && x.data.buffer() != x.inputAttach.buffer() ) ) bad( "flow", "data", "the buffer of a transition is not the one of its attachments: " + str( k ) );
					if ( !once.emplace( k, x.data.name ).second ) bad( "flow", "twice", "a transition is reported twice: " + str( k ) );
				}
				for ( auto & k : ev ) if ( !gv.count( k ) ) bad( "flow", "missing-view", "no transition is reported for the image " + str( k ) );
				for ( auto & k : gv ) if ( !ev.count( k ) ) bad( "flow", "extra-view", "a transition is reported for nothing: " + str( k ) );
				for ( auto & k : eb ) if ( !gb.count( k ) ) bad( "flow", "missing-buffer", "no transition is reported for the buffer " + str( k ) );
				for ( auto & k : gb ) if ( !eb.count( k ) ) bad( "flow", "extra-buffer", "a transition is reported for nothing: " + str( k ) );
				c.stats.add( "view transitions checked", ev.size() );
				c.stats.add( "buffer transitions checked", eb.size() );
				flowsV = ev;
				flowsB = eb;
			}

			void checkNodes( crg::RunnableGraph const & rg )
			{
				auto root = rg.getGraph();
				if ( !crg::isRootNode( root ) || root->getName() != "graph" ) { bad( "flow", "root", "the graph does not start with its root" ); return; }
				std::map< crg::FramePass const *, crg::GraphNode const * > seen;
				std::vector< crg::GraphNode const * > todo( root->getNext().begin(), root->getNext().end() );
				while ( !todo.empty() )
				{
					auto n = todo.back();
					todo.pop_back();
					auto fp = crg::getFramePass( *n );
					if ( !fp || passOf( fp ) < 0 ) { bad( "flow", "node", "a node of the graph is not one of its passes" ); return; }
					auto [it, fresh] = seen.emplace( fp, n );
					if ( !fresh ) { if ( it->second != n ) bad( "flow", "node-twice", "a pass has two nodes" ); continue; }
					if ( n->getId() != fp->id || n->getName() != fp->getGroupName() || &n->getGroup() != &fp->group ) bad( "flow", "node-name", "a node does not have the name of its pass" );
					todo.insert( todo.end(), n->getNext().begin(), n->getNext().end() );
				}
				if ( seen.size() != passes.size() ) { bad( "flow", "unreachable", std::to_string( seen.size() ) + " passes can be reached from the root, out of " + std::to_string( passes.size() ) ); return; }
				std::set< std::pair< int, int > > e, g;
				for ( auto * s : { &flowsV, &flowsB } )
					for ( auto & k : *s ) if ( std::get< 0 >( k ) >= 0 && std::get< 3 >( k ) >= 0 ) e.insert( { std::get< 0 >( k ), std::get< 3 >( k ) } );
				for ( auto & [fp, n] : seen )
					for ( auto & x : n->getNext() )
						if ( !g.insert( { passOf( fp ), passOf( crg::getFramePass( *x ) ) } ).second ) bad( "flow", "edge-twice", "an edge is given twice" );
				if ( g != e ) bad( "flow", "edges", "the edges between the passes are not the transitions between them" );
				for ( auto & [a, b] : g )
				{
					std::set< Key > have, want;
					auto & in = seen[passes[size_t( b )].p]->getInputAttaches( seen[passes[size_t( a )].p] );
					for ( auto & x : in.viewTransitions ) have.insert( { x.outputAttach.pass ? passOf( x.outputAttach.pass ) : Outside, x.outputAttach.view().id, x.outputAttach.name, x.inputAttach.pass ? passOf( x.inputAttach.pass ) : Outside, x.inputAttach.view().id, x.inputAttach.name } );
					for ( auto & x : in.bufferTransitions ) have.insert( { x.outputAttach.pass ? passOf( x.outputAttach.pass ) : Outside, 0, x.outputAttach.name, x.inputAttach.pass ? passOf( x.inputAttach.pass ) : Outside, 0, x.inputAttach.name } );
					for ( auto * s : { &flowsV, &flowsB } )
						for ( auto & k : *s ) if ( std::get< 0 >( k ) == a && std::get< 3 >( k ) == b ) want.insert( k );
					if ( have != want ) bad( "flow", "edge-transitions", "the transitions of an edge are not those between its passes" );
					c.stats.add( "edges checked" );
				}
				std::set< crg::GraphNode const * > first( root->getNext().begin(), root->getNext().end() );
				for ( auto & [fp, n] : seen )
				{
					bool prev = false;
					for ( auto & [a, b] : g ) prev = prev || b == passOf( fp );
					if ( first.count( n ) == size_t( prev ) ) bad( "flow", "first", "the passes after the root are not those which wait for no other one" );
					if ( !n->hasPrev() ) bad( "flow", "has-prev", "a node of the graph has no previous one" );
					else if ( !prev )
					{
						auto & in = n->getInputAttaches( root );
						if ( !in.viewTransitions.empty() || !in.bufferTransitions.empty() ) bad( "flow", "root-transitions", "there are transitions from the root" );
						c.stats.add( "root edges checked" );
					}
				}
			}

			//**** dot exports ****

			using Edges = std::multiset< std::tuple< std::string, std::string, std::string > >;
			std::string nodeOf( crg::FramePass const * p, char const * none ) { return p ? p->getGroupName() : std::string{ none }; }

			std::vector< std::string > clusterPath( int g )
			{
				std::vector< std::string > r;
				for ( ; g >= 0; g = groups[size_t( g )].parent ) r.insert( r.begin(), "cluster_" + std::to_string( groups[size_t( g )].g->id ) );
				return r;
			}

			void checkDot( crg::RunnableGraph const & rg, bool transitions )
			{
				crg::dot::Config cfg{ rng.chance( 50 ), rng.chance( 50 ), rng.chance( 50 ), rng.chance( 40 ) };
				std::stringstream ss;
				if ( transitions ) crg::dot::displayTransitions( ss, rg, cfg );
				else crg::dot::displayPasses( ss, rg, cfg );
				auto map = transitions ? crg::dot::displayTransitions( rg, cfg ) : crg::dot::displayPasses( rg, cfg );
				std::string what = std::string( transitions ? "transitions" : "passes" ) + ( cfg.withColours ? " colours" : "" ) + ( cfg.withIds ? " ids" : "" ) + ( cfg.withGroups ? " groups" : "" ) + ( cfg.splitGroups ? " split" : "" );
				Dot d{ ss.str() };
				c.stats.add( "dot exports checked" );
				auto & all = rg.getTransitions();
				Edges want;
				std::multiset< std::pair< int, std::string > > wantPass;   // group, name of the passes which have an edge
				std::set< int > shown;
				std::set< std::pair< std::string, std::string > > wantBox;   // where, name
				auto edge = [&]( std::string const & a, std::string const & box, std::string const & b, std::string const & label, crg::FramePass const * from, crg::FramePass const * to )
				{
					want.insert( { a, box, label } );
					want.insert( { box, b, label } );
					// the transition lies in the innermost group which holds both passes
					std::string where;
					if ( cfg.withGroups && from && to )
					{
						auto pa = clusterPath( passes[size_t( passOf( from ) )].group ), pb = clusterPath( passes[size_t( passOf( to ) )].group );
						for ( size_t i = 0; i < pa.size() && i < pb.size() && pa[i] == pb[i]; ++i ) where += pa[i] + "/";
					}
					wantBox.insert( { where, box } );
				};
				if ( transitions )
				{
					auto put = [&]( auto const & x, std::string const & label )
					{
						if ( x.outputAttach.pass ) shown.insert( passOf( x.outputAttach.pass ) );
						if ( x.inputAttach.pass ) shown.insert( passOf( x.inputAttach.pass ) );
						if ( cfg.splitGroups && ( !x.outputAttach.pass || !x.inputAttach.pass ) ) return;
						edge( nodeOf( x.outputAttach.pass, "ExternalSource" ), x.outputAttach.name + "\\ntransition to\\n" + x.inputAttach.name, nodeOf( x.inputAttach.pass, "ExternalDestination" ), label, x.outputAttach.pass, x.inputAttach.pass );
					};
					for ( auto & x : all.viewTransitions ) put( x, x.data.data->name );
					for ( auto & x : all.bufferTransitions ) put( x, x.data.name );
				}
				else
				{
					std::set< crg::GraphNode const * > seen;
					std::vector< crg::GraphNode const * > todo( rg.getGraph()->getNext().begin(), rg.getGraph()->getNext().end() );
					while ( !todo.empty() )
					{
						auto n = todo.back();
						todo.pop_back();
						if ( !seen.insert( n ).second ) continue;
						for ( auto & x : n->getNext() )
						{
							auto & in = x->getInputAttaches( n );
							shown.insert( passOf( crg::getFramePass( *n ) ) );
							shown.insert( passOf( crg::getFramePass( *x ) ) );
							for ( auto & t : in.viewTransitions ) edge( n->getName(), "Transition to\\n" + t.inputAttach.name, x->getName(), t.data.data->name, crg::getFramePass( *n ), crg::getFramePass( *x ) );
							for ( auto & t : in.bufferTransitions ) edge( n->getName(), "Transition to\\n" + t.inputAttach.name, x->getName(), t.data.name, crg::getFramePass( *n ), crg::getFramePass( *x ) );
							todo.push_back( x );
						}
					}
				}
				if ( !d.error.empty() )
				{
					bad( "dot", "syntax", "the dot export of " + what + " is not well formed: " + d.error );
					return;
				}
				if ( !cfg.splitGroups && d.graphs.size() != 1 ) { bad( "dot", "count", "the dot export of " + what + " is made of " + std::to_string( d.graphs.size() ) + " graphs" ); return; }
				Edges have;
				std::multiset< std::pair< std::string, std::string > > decl, boxes;   // where, name
				std::map< std::string, std::set< std::string > > ids;
				for ( auto & g : d.graphs )
				{
					for ( auto & e : g.edges )
					{
						auto l = e.attrs.find( "label" );
						have.insert( { e.from, e.to, l == e.attrs.end() ? "" : l->second } );
						if ( e.attrs.count( "color" ) != size_t( cfg.withColours ) ) bad( "dot", "colour", "the colours of the dot export of " + what + " are not as asked" );
					}
					for ( auto & n : g.nodes )
					{
						auto shape = n.attrs.find( "shape" );
						if ( n.attrs.count( "color" ) != size_t( cfg.withColours ) ) bad( "dot", "colour", "the colours of the dot export of " + what + " are not as asked" );
						std::string where = cfg.splitGroups ? g.name : std::string{};
						if ( !cfg.splitGroups && cfg.withGroups ) for ( auto & p : n.path ) where += p + "/";
						if ( shape != n.attrs.end() && shape->second == "box" ) boxes.insert( { where, n.name } );
						if ( shape == n.attrs.end() || shape->second != "ellipse" || n.name == "ExternalSource" ) continue;
						decl.insert( { where, n.name } );
						if ( cfg.withIds != ( n.attrs.count( "id" ) > 0 ) ) bad( "dot", "id", "the ids of the dot export of " + what + " are not as asked" );
						else if ( cfg.withIds ) ids[n.name].insert( n.attrs.at( "id" ) );
					}
					std::set< std::string > names;
					for ( auto & cl : g.clusters )
					{
						if ( !names.insert( cl.name ).second ) { bad( "dot", "cluster-twice", "a group is displayed twice in the dot export of " + what ); continue; }
						for ( auto & x : groups )
							if ( "cluster_" + std::to_string( x.g->id ) == cl.name )
							{
								auto path = clusterPath( int( &x - groups.data() ) );
								path.pop_back();
								if ( cl.label != x.name || cl.path != path ) bad( "dot", "cluster", "a group is not displayed with its name, in its parent, in the dot export of " + what );
							}
					}
				}
				std::set< std::pair< std::string, std::string > > wantDecl;
				std::map< std::string, std::set< std::string > > wantIds;
				for ( int p : shown )
				{
					std::string where = cfg.splitGroups ? groups[size_t( passes[size_t( p )].group )].name : std::string{};
					if ( !cfg.splitGroups && cfg.withGroups ) for ( auto & x : clusterPath( passes[size_t( p )].group ) ) where += x + "/";
					wantDecl.insert( { where, passes[size_t( p )].p->getGroupName() } );
					wantIds[passes[size_t( p )].p->getGroupName()].insert( std::to_string( passes[size_t( p )].p->id ) );
				}
				if ( have != want )
				{
					std::string m;
					for ( auto & e : want ) if ( have.count( e ) != want.count( e ) && m.size() < 200 ) m += " wanted " + std::get< 0 >( e ) + "->" + std::get< 1 >( e ) + " x" + std::to_string( want.count( e ) ) + ", got x" + std::to_string( have.count( e ) );
					for ( auto & e : have ) if ( !want.count( e ) && m.size() < 200 ) m += " unwanted " + std::get< 0 >( e ) + "->" + std::get< 1 >( e );
					bad( "dot", "edges", "the edges of the dot export of " + what + " are not the transitions:" + m );
				}
				c.stats.add( "dot edges checked", want.size() );
				for ( auto & w : wantDecl ) if ( !decl.count( w ) ) bad( "dot", "pass-missing", "the pass " + w.second + " is not displayed in its group (" + w.first + ") in the dot export of " + what );
				std::set< std::string > ambiguous;   // passes of different groups of the same name
				for ( auto & a : passes ) for ( auto & b : passes ) if ( &a != &b && a.p->getGroupName() == b.p->getGroupName() ) ambiguous.insert( a.p->getGroupName() );
				for ( auto & w : decl )
					if ( !wantDecl.count( w ) ) bad( "dot", "pass-extra", "the pass " + w.second + " is displayed where it is not (" + w.first + ") in the dot export of " + what );
					else if ( decl.count( w ) > 1 && !ambiguous.count( w.second ) ) bad( "dot", "pass-twice", "the pass " + w.second + " is displayed twice in the dot export of " + what );
				if ( !cfg.splitGroups )
				{
					for ( auto & w : wantBox ) if ( !boxes.count( w ) ) bad( "dot", "box-missing", "the transition " + w.second + " is not displayed in the group of its passes (" + w.first + ") in the dot export of " + what );
					for ( auto & w : boxes )
						if ( !wantBox.count( w ) ) bad( "dot", "box-extra", "the transition " + w.second + " is displayed where it is not (" + w.first + ") in the dot export of " + what );
						else if ( cfg.withGroups && boxes.count( w ) > 1 ) bad( "dot", "box-twice", "the transition " + w.second + " is displayed twice in the dot export of " + what );
					c.stats.add( "dot transitions placed", wantBox.size() );
				}
				if ( cfg.withIds )
					for ( auto & [n, s] : ids )
						for ( auto & i : s ) if ( !wantIds[n].count( i ) ) bad( "dot", "id", "the pass " + n + " has the id " + i + " in the dot export of " + what );
				// the other overload tells the same
				if ( cfg.splitGroups )
				{
					std::string s;
					for ( auto & [n, st] : map ) if ( !n.empty() ) s += st.str();
					if ( s != ss.str() ) bad( "dot", "overloads", "both dot exports of " + what + " differ" );
				}
				else if ( map.find( "" ) == map.end() || map.find( "" )->second.str() != ss.str() ) bad( "dot", "overloads", "both dot exports of " + what + " differ" );
			}

			void run()
			{
				VkPhysicalDeviceProperties props = drv.props;
				ctx.reset( new crg::GraphContext{ VkDevice( 0x11 ), VkPipelineCache{}, nullptr, drv.memProps, props, false, &getProc } );
				handler = std::make_unique< crg::ResourceHandler >();
				graph = std::make_unique< crg::FrameGraph >( *handler, "graph" );
				if ( rng.chance( 10 ) )
				{
					bool refused = false;
					try { graph->compile( *ctx ); } catch ( std::exception const & ) { refused = true; }
					if ( !refused ) bad( "decl", "empty-accepted", "a graph without passes was compiled" );
					c.stats.add( "empty graphs refused" );
				}
				makeGroups();
				makeImages();
				makePasses();
				if ( passes.empty() ) { finish(); return; }
				uint32_t na = rng.range( 1, uint32_t( 2 + passes.size() * 4 ) );
				for ( uint32_t i = 0; i < na; ++i ) addAtt( int( rng.below( uint32_t( passes.size() ) ) ) );
				applyDeps();
				c.nontrivial = atts.size() > 1;
				c.summary = std::to_string( passes.size() ) + " passes, " + std::to_string( atts.size() ) + " attachments, " + std::to_string( groups.size() ) + " groups";
				bool cyclic = false;
				if ( rng.chance( 10 ) )
				{
					// passes which wait for each other, the others being fine
					std::vector< int > free;
					for ( size_t i = 0; i < passes.size(); ++i ) if ( passes[i].deps.empty() ) free.push_back( int( i ) );
					for ( auto & p : passes )
					{
						if ( p.deps.empty() ) continue;
						int d = p.deps[0];
						if ( passes[size_t( d )].deps.empty() && free.size() < 2 ) continue;
						passes[size_t( d )].p->addDependency( *p.p );
						cyclic = true;
						op( "cycle " + p.name + " " + passes[size_t( d )].name );
						break;
					}
				}
				std::unique_ptr< crg::RunnableGraph > rg;
				bool refused = false;
				try { rg = graph->compile( *ctx ); }
				catch ( std::exception const & ) { refused = true; }
				if ( cyclic )
				{
					if ( !refused ) bad( "decl", "cycle-accepted", "a graph whose passes wait for each other was compiled" );
					c.stats.add( "cycles refused" );
				}
				else if ( refused ) bad( "decl", "refused", "a valid graph was refused" );
				if ( rg && !cyclic )
				{
					checkTransitions( rg->getTransitions() );
					checkNodes( *rg );
					for ( int k = 0; k < 2; ++k ) { checkDot( *rg, true ); checkDot( *rg, false ); }
					if ( rng.chance( 20 ) )
					{
						// compiling does not depend on what was compiled before
						rg.reset();
						rg = graph->compile( *ctx );
						checkTransitions( rg->getTransitions() );
						checkNodes( *rg );
						c.stats.add( "second compilations" );
					}
				}
				rg.reset();
				finish();
			}
			void finish()
			{
				graph.reset();
				handler.reset();
				ctx->delQueue.clear( *ctx );
				ctx.reset();
			}
		};
	}

	void nodesCase( Case & c )
	{
		NodesCase n{ c };
		n.run();
	}
}
