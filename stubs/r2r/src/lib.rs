//! Stand-in for r2r, whose message types are generated from an installed ROS 2: the four message types
//! the conversions use, with the fields r2r_msg_gen generates for them.
pub mod builtin_interfaces {
    pub mod msg {
        #[derive(Clone, Debug, Default, PartialEq)]
        pub struct Time {
            pub sec: i32,
            pub nanosec: u32,
        }
    }
}
pub mod std_msgs {
    pub mod msg {
        #[derive(Clone, Debug, Default, PartialEq)]
        pub struct Header {
            pub stamp: crate::builtin_interfaces::msg::Time,
            pub frame_id: std::string::String,
        }
    }
}
pub mod sensor_msgs {
    pub mod msg {
        #[derive(Clone, Debug, Default, PartialEq)]
        pub struct PointField {
            pub name: std::string::String,
            pub offset: u32,
            pub datatype: u8,
            pub count: u32,
        }
        impl PointField {
            pub const INT8: u8 = 1;
            pub const UINT8: u8 = 2;
            pub const INT16: u8 = 3;
            pub const UINT16: u8 = 4;
            pub const INT32: u8 = 5;
            pub const UINT32: u8 = 6;
            pub const FLOAT32: u8 = 7;
            pub const FLOAT64: u8 = 8;
        }
        #[derive(Clone, Debug, Default, PartialEq)]
        pub struct PointCloud2 {
            pub header: crate::std_msgs::msg::Header,
            pub height: u32,
            pub width: u32,
            pub fields: Vec<PointField>,
            pub is_bigendian: bool,
            pub point_step: u32,
            pub row_step: u32,
            pub data: Vec<u8>,
            pub is_dense: bool,
        }
    }
}
